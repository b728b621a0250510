"""Typed random programs with their own call-by-need interpreter.

A program is generated together with a model that evaluates it lazily, counting every
evaluation of every numbered site. Printing happens afterwards: sites the model never
evaluates are printed as panics (or not-terminating calls), sites it evaluates can be
printed as dbg traces, so that one run of eu decides value, laziness and sharing."""
import json, sys, threading

sys.setrecursionlimit(400000)
LIM = 1 << 53


class Reject(Exception):
    """The program is outside the modelled fragment (too big a number, too long a run)."""


class Th:
    __slots__ = ("f", "v")

    def __init__(self, f, v=None):
        self.f, self.v = f, v

    def force(self):
        if self.f is not None:
            f, self.f = self.f, blackhole
            self.v = f()
            self.f = None
        return self.v


def blackhole():
    raise Reject("cycle")


def val(v):
    return Th(None, v)


class Fn:
    __slots__ = ("n", "call", "args")

    def __init__(self, n, call, args=()):
        self.n, self.call, self.args = n, call, args


def apply(f, ths):
    if not isinstance(f, Fn):
        raise Reject("apply %r" % (f,))
    have = list(f.args) + list(ths)
    if len(have) < f.n:
        return Fn(f.n, f.call, tuple(have))
    r = f.call(*have[:f.n])
    return r if len(have) == f.n else apply(r, have[f.n:])


NIL = ()


def mk(ths, tail=NIL):
    """A list value from thunks."""
    r = tail
    for t in reversed(ths):
        r = (t, val(r))
    return r


class M:
    """Evaluation state of one program."""

    def __init__(self, fuel=60000):
        self.fuel = fuel
        self.fired = {}

    def tick(self):
        self.fuel -= 1
        if self.fuel < 0:
            raise Reject("fuel")


# ---- nodes --------------------------------------------------------------------
class Node:
    __slots__ = ("t", "ev", "pr", "sited")

    def __init__(self, t, ev, pr, sited=True):
        self.t, self.ev, self.pr, self.sited = t, ev, pr, sited


N, B, S = "n", "b", "s"
SCALAR = (N, B, S)


def lt(t):
    return ("l", t)


def is_l(t):
    return isinstance(t, tuple) and t[0] in "lv"


def elt(t):
    return t[1] if t[0] == "l" else t[2]


def sub(a, b):
    """a usable where b is wanted"""
    if a == b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[0] == "v" and b[0] == "l":
            return sub(a[2], b[1])
        if a[0] == "r" and b[0] == "r":
            da = dict(a[1])
            return all(k in da and sub(da[k], v) for k, v in b[1]) and len(a[1]) == len(b[1])
    return False


class Op:
    def __init__(self, sym, prec, assoc, ta, tb, tr, fn, strict=True):
        self.sym, self.prec, self.assoc, self.ta, self.tb, self.tr, self.fn = sym, prec, assoc, ta, tb, tr, fn


def ck(n):
    if abs(n) >= LIM:
        raise Reject("big")
    return n


OPS = [
    Op("+", 75, "l", N, N, N, lambda m, a, b: ck(a.force() + b.force())),
    Op("+", 75, "l", N, N, N, lambda m, a, b: ck(a.force() + b.force())),
    Op("-", 75, "l", N, N, N, lambda m, a, b: ck(a.force() - b.force())),
    Op("*", 80, "l", N, N, N, lambda m, a, b: ck(a.force() * b.force())),
    Op("<", 50, "l", N, N, B, lambda m, a, b: a.force() < b.force()),
    Op(">", 50, "l", N, N, B, lambda m, a, b: a.force() > b.force()),
    Op("<=", 50, "l", N, N, B, lambda m, a, b: a.force() <= b.force()),
    Op("≥", 50, "l", N, N, B, lambda m, a, b: a.force() >= b.force()),
    Op("=", 40, "l", N, N, B, lambda m, a, b: a.force() == b.force()),
    Op("≠", 40, "l", N, N, B, lambda m, a, b: a.force() != b.force()),
    Op("=", 40, "l", S, S, B, lambda m, a, b: a.force() == b.force()),
    Op("&&", 35, "l", B, B, B, lambda m, a, b: a.force() and b.force()),
    Op("∧", 35, "l", B, B, B, lambda m, a, b: a.force() and b.force()),
    Op("||", 30, "l", B, B, B, lambda m, a, b: a.force() or b.force()),
    Op("∨", 30, "l", B, B, B, lambda m, a, b: a.force() or b.force()),
]
FIELDS = ["x", "y", "z", "w", "kk"]


def show_str(s):
    return json.dumps(s, ensure_ascii=False).replace("{", "{{").replace("}", "}}")


def paren(p, need):
    s, q = p
    return s if q >= need else "(%s)" % s


def prefixed(op, s):
    """Two operator characters side by side would be read as one operator."""
    return op + (s if s[0].isalnum() or s[0] in "([{\"_:" else " " + s)


class Gen:
    def __init__(self, r, traces=True, sites=True, depth=5, budget=None):
        self.r, self.depth = r, depth
        self.traces, self.sites = traces, sites
        self.m = M()
        self.nsite = 0
        self.nname = 0
        self.tops = []          # (name, printed-later closure)
        self.env0 = {}          # name -> Th
        self.types = []         # (name, type) in scope at top
        self.ops = list(OPS)
        self.cover = {}
        self.budget = budget or r.choice([60, 120, 240])
        self.dead = "panic"
        self.recs = 0

    def cov(self, k):
        self.cover[k] = self.cover.get(k, 0) + 1

    # -- types --
    def ty(self, d, scalar=.6):
        r = self.r
        k = r.random()
        if d <= 0 or k < scalar:
            return r.choice([N, N, N, B, S])
        if k < scalar + .2:
            return lt(self.ty(d - 1, .8))
        if k < scalar + .25:
            return ("v", r.randint(1, 3), self.ty(d - 1, .9))
        if k < scalar + .37:
            return self.rty(d - 1)
        return ("f", tuple(self.ty(0) for _ in range(r.choice([1, 1, 2]))), self.ty(0))

    def rty(self, d):
        ks = self.r.sample(FIELDS, self.r.randint(1, 3))
        return ("r", tuple(sorted((k, self.ty(d, .8)) for k in ks)))

    def fresh(self, pre, avoid=()):
        # names are sometimes reused, so that inner ones shadow outer ones
        r = self.r
        if r.random() < .12:
            # prelude functions the program does not call itself: what calls them is not affected
            n = r.choice(["tail", "nil", "not", "first", "flip", "key", "value", "elements", "append",
                          "uncurry", "curry", "zip", "and", "or", "cat"])
            if n not in avoid:
                self.cov("shadowed prelude name")
                return n
        for _ in range(20):
            n = "%s%d" % (pre, r.randint(0, 9) if r.random() < .5 else self.nname)
            self.nname += 1
            if n not in avoid:
                return n
        return "%s%d" % (pre, self.nname + 1000)

    # -- sites --
    def site(self, node):
        if not self.sites or self.r.random() > .35 or isinstance(node.t, tuple) and node.t[0] == "f" and self.r.random() < .5:
            return node
        self.nsite += 1
        i = self.nsite
        m = self.m
        m.fired[i] = 0
        traced = self.traces and node.t in SCALAR and self.r.random() < .7

        def ev(env):
            m.fired[i] += 1
            return node.ev(env)

        def pr():
            if m.fired[i] == 0:
                if self.dead == "loop":
                    return "loop-forever(%d)" % i, 90
                return 'panic("dead %d")' % i, 90
            if traced:
                self.traced.add(i)
                return 'dbg({label: "t%d"}, %s)' % (i, node.pr()[0]), 90
            return node.pr()
        return Node(node.t, ev, pr)

    def rp(self, s):
        return s

    # -- expressions --
    def thunk(self, node, env):
        """Argument passing: a variable passes its own thunk."""
        if isinstance(node, Var):
            return env[node.name]
        return Th(lambda: node.ev(env))

    def expr(self, t, d, sc):
        """sc: dict name -> type of everything in scope"""
        node = self.site(self.expr0(t, d, sc))
        if self.r.random() < .07:
            n0 = node
            node = Node(t, n0.ev, lambda: ("(%s)" % n0.pr()[0], 100)) if not isinstance(n0, Var) else n0
        return node

    def expr0(self, t, d, sc):
        r = self.r
        self.budget -= 1
        vs = [n for n, u in sc.items() if sub(u, t)]
        if vs and (d <= 0 or r.random() < .25):
            return Var(t, r.choice(vs))
        if r.random() < (.3 if d <= 0 else .12):
            c = self.path(t, sc)
            if c:
                return c
        if d <= 0 or self.budget <= 0:
            return self.leaf(t, sc)
        # forms available at any type
        k = r.random()
        if k < .10:
            return self.let(t, d, sc)
        if k < .20:
            return self.cond(t, d, sc)
        if k < .38:
            c = self.call(t, d, sc)
            if c:
                return c
        if k < .46:
            c = self.project(t, d, sc)
            if c:
                return c
        if k < .49 and not (isinstance(t, tuple) and t[0] == "f"):
            return self.transparent(t, d, sc)
        if t == N:
            return self.num(d, sc)
        if t == B:
            return self.boolean(d, sc)
        if t == S:
            return self.string(d, sc)
        if t[0] in "lv":
            return self.lst(t, d, sc)
        if t[0] == "r":
            return self.rec(t, d, sc)
        return self.fun(t, d, sc)

    def leaf(self, t, sc):
        r = self.r
        if t == N:
            n = r.choice([0, 1, 2, 3, 5, 7, 10, 42, 100])
            return Node(t, lambda env: n, lambda: (str(n), 100), False)
        if t == B:
            b = r.random() < .5
            return Node(t, lambda env: b, lambda: ("true" if b else "false", 100), False)
        if t == S:
            s = r.choice(["", "a", "b", "foo", "x y", "é", "Zed", "{q}", "1"])
            return Node(t, lambda env: s, lambda: (show_str(s), 100), False)
        if t[0] in "lv":
            n = t[1] if t[0] == "v" else r.randint(0, 2)
            return self.list_lit(t, [self.expr(elt(t), 0, sc) for _ in range(n)])
        if t[0] == "r":
            return self.block_lit(t, 0, sc)
        return self.fun(t, 0, sc)

    def infix(self, op, a, b, prec=None):
        def ev(env):
            self.m.tick()
            return op.fn(self.m, self.thunk(a, env), self.thunk(b, env))

        def pr():
            la, ra = (op.prec, op.prec + 1) if op.assoc == "l" else (op.prec + 1, op.prec)
            return "%s %s %s" % (paren(a.pr(), la), op.sym, paren(b.pr(), ra)), op.prec
        self.cov("op " + op.sym)
        return Node(op.tr, ev, pr)

    def num(self, d, sc):
        r = self.r
        k = r.random()
        if k < .6:
            op = r.choice([o for o in self.ops if o.tr == N])
            return self.infix(op, self.expr(op.ta, d - 1, sc), self.expr(op.tb, d - 1, sc))
        if k < .68:
            a, n = self.expr(N, d - 1, sc), r.choice([2, 3, 7, 10])
            mod = r.random() < .5
            lit = Node(N, lambda env: n, lambda: (str(n), 100), False)
            return self.infix(Op("%" if mod else "/", 80, "l", N, N, N,
                                 lambda m, x, y: x.force() % y.force() if mod else x.force() // y.force()), a, lit)
        if k < .78:
            return self.listfold(d, sc)
        if k < .84:
            t = lt(self.ty(1))
            a = self.expr(t, d - 1, sc)
            return self.fcall("count", [a], N, lambda x: self.length(x.force()))
        if k < .9:
            a, b = self.expr(N, d - 1, sc), self.expr(N, d - 1, sc)
            f = r.choice([max, min])
            return self.fcall(f.__name__, [a, b], N, lambda x, y: f(x.force(), y.force()))
        if k < .95:
            a = self.expr(N, d - 1, sc)
            f, p = r.choice([("inc", lambda x: ck(x.force() + 1)), ("dec", lambda x: ck(x.force() - 1)),
                             ("negate", lambda x: -x.force()), ("abs", lambda x: abs(x.force()))])
            return self.fcall(f, [a], N, p)
        return self.recursion(d, sc)

    def boolean(self, d, sc):
        r = self.r
        k = r.random()
        if k < .7:
            op = r.choice([o for o in self.ops if o.tr == B])
            return self.infix(op, self.expr(op.ta, d - 1, sc), self.expr(op.tb, d - 1, sc))
        if k < .8:
            a = self.expr(B, d - 1, sc)
            s = r.choice(["!", "¬"])
            return Node(B, lambda env: not a.ev(env), lambda: (prefixed(s, paren(a.pr(), 89)), 88))
        if k < .9:
            a = self.expr(lt(self.ty(1)), d - 1, sc)
            f, p = r.choice([("nil?", lambda x: x.force() == NIL), ("non-nil?", lambda x: x.force() != NIL)])
            return self.fcall(f, [a], B, p)
        t = N
        p = self.expr(("f", (t,), B), d - 1, sc)
        a = self.expr(lt(t), d - 1, sc)
        if r.random() < .5:
            return self.fcall("any", [p, a], B, lambda f, l: self.anyp(f, l.force(), True))
        return self.fcall("all", [p, a], B, lambda f, l: not self.anyp(f, mk(self.spine(l.force())), False))

    def anyp(self, f, l, want):
        while l != NIL:
            self.m.tick()
            if apply(f.force(), [l[0]]) == want:
                return True
            l = l[1].force()
        return False

    def string(self, d, sc):
        r = self.r
        k = r.random()
        vs = [n for n, u in sc.items() if u in (N, S)]
        if k < .45 and vs:
            parts = []
            for _ in range(r.randint(1, 3)):
                parts.append(r.choice(["", "-", "a ", "é"]))
                parts.append(("v", r.choice(vs)))
            parts.append(r.choice(["", "!"]))

            def ev(env):
                return self.cks("".join(p if isinstance(p, str) else self.tos(env[p[1]].force()) for p in parts))
            src = '"%s"' % "".join(p if isinstance(p, str) else "{%s}" % p[1] for p in parts)
            self.cov("interpolation")
            return Node(S, ev, lambda: (src, 100))
        if k < .6:
            a = self.expr(N, d - 1, sc)
            return self.fcall("str.of", [a], S, lambda x: self.tos(x.force()))
        if k < .8:
            a, b = self.expr(S, d - 1, sc), self.expr(S, d - 1, sc)
            return self.fcall("str.append" if False else "str.prefix", [a, b], S,
                              lambda x, y: self.cks(self.both(x, y)))
        a = self.expr(lt(S), d - 1, sc)
        sep = r.choice(["", ",", "--"])
        lit = Node(S, lambda env: sep, lambda: (show_str(sep), 100), False)
        return self.fcall("str.join-on", [lit, a], S, lambda q, l: self.cks(q.force().join(
            h.force() for h in self.spine(l.force()))))

    def both(self, x, y):
        """str.prefix(a, b): a then b"""
        p = x.force()
        q = y.force()
        return p + q

    def cks(self, s):
        if len(s) > 400:
            raise Reject("long string")
        return s

    def tos(self, v):
        return v if isinstance(v, str) else str(v)

    def spine(self, l):
        out = []
        while l != NIL:
            self.m.tick()
            out.append(l[0])
            l = l[1].force()
        return out

    def length(self, l):
        return len(self.spine(l))

    def fcall(self, name, args, t, fn):
        """Prelude call, in call or pipeline spelling."""
        style = self.r.random()
        self.cov("fn " + name)

        def ev(env):
            self.m.tick()
            return fn(*[self.thunk(a, env) for a in args])

        def pr():
            if style < .35:
                left, right = paren(args[-1].pr(), 20), name
                if len(args) > 1:
                    right += "(%s)" % ", ".join(a.pr()[0] for a in args[:-1])
                return "%s %s" % (left, right), 20
            return "%s(%s)" % (name, ", ".join(a.pr()[0] for a in args)), 90
        return Node(t, ev, pr)

    def cond(self, t, d, sc):
        r = self.r
        k = r.random()
        c, a, b = self.expr(B, d - 1, sc), self.expr(t, d - 1, sc), self.expr(t, d - 1, sc)
        if k < .6:
            self.cov("if")
            return Node(t, lambda env: a.ev(env) if c.ev(env) else b.ev(env),
                        lambda: ("if(%s, %s, %s)" % (c.pr()[0], a.pr()[0], b.pr()[0]), 90))
        if k < .8:
            self.cov("then")
            return Node(t, lambda env: a.ev(env) if c.ev(env) else b.ev(env),
                        lambda: ("%s then(%s, %s)" % (paren(c.pr(), 20), a.pr()[0], b.pr()[0]), 20))
        c2, e = self.expr(B, d - 2, sc), self.expr(t, d - 2, sc)
        self.cov("cond")
        return Node(t, lambda env: a.ev(env) if c.ev(env) else (b.ev(env) if c2.ev(env) else e.ev(env)),
                    lambda: ("cond[%s => %s, %s ⇒ %s, %s]" % (paren(c.pr(), 21), paren(a.pr(), 21), paren(c2.pr(), 21),
                                                            paren(b.pr(), 21), e.pr()[0]), 90))

    def transparent(self, t, d, sc):
        r = self.r
        a = self.expr(t, d - 1, sc)
        k = r.random()
        if k < .3:
            self.cov("meta")
            s = r.choice(["{note: 1}", '{note: panic("never")}'])
            return Node(t, a.ev, lambda: ("%s // %s" % (paren(a.pr(), 5), s), 5))
        if k < .6:
            return self.fcall("identity", [a], t, lambda x: x.force())
        u = self.expr(self.ty(1), d - 1, sc)
        if k < .8:
            return self.fcall("const", [a, u], t, lambda x, y: x.force())
        # apply operator
        f = self.expr(("f", (u.t,), t), d - 2, sc)
        self.cov("@")
        return Node(t, lambda env: apply(f.ev(env), [self.thunk(u, env)]),
                    lambda: ("%s @ %s" % (paren(f.pr(), 11), paren(u.pr(), 11)), 10))

    # -- blocks of declarations --
    def decls(self, d, sc, want, names=None, noshadow=False):
        """A list of declarations; `want`: list of (name, type) that must be there.
        Returns (entries, inner scope). entries: (name, kind, node...)"""
        r = self.r
        extra = []
        names = [n for n, _ in want]
        for _ in range(r.randint(0, 3)):
            pre = r.choice(["v", "v", "f"])
            n = self.fresh(pre, names)
            names.append(n)
            extra.append((n, self.fty() if pre == "f" else self.ty(2)))
        allx = list(want) + extra
        inner = {k: v for k, v in sc.items() if k not in names}
        order = list(range(len(allx)))
        r.shuffle(order)            # dependency order, independent of the printed one
        made = {}
        for i in order:
            n, t = allx[i]
            if isinstance(t, tuple) and t[0] == "f" and r.random() < .8 and n not in [w[0] for w in want]:
                made[i] = self.fundecl(n, t, d - 1, dict(inner))
            else:
                node = self.expr(t, d - 1, dict(inner))
                made[i] = (n, t, lambda env, node=node: self.thunk(node, env), lambda n=n, node=node: "%s: %s" % (n, node.pr()[0]))
            inner[n] = t
        ents = [made[i] for i in range(len(allx))]
        r.shuffle(ents)
        return ents, inner

    def fty(self):
        return ("f", tuple(self.ty(2) for _ in range(self.r.choice([1, 1, 2, 2, 3]))), self.ty(1))

    def bind(self, ents, env):
        e = dict(env)
        for n, t, mkth, _ in ents:
            # a variable bound to a variable shares its thunk, so resolve on demand
            e[n] = Th(lambda mkth=mkth: mkth(e).force())
        return e

    def let(self, t, d, sc):
        ents, inner = self.decls(d, sc, [])
        if not ents:
            return self.leaf(t, sc)
        body = self.expr(t, d - 1, inner)
        self.cov("let")
        sep = self.r.choice([" ", ", "])
        wrap = self.r.random() < .3 and is_l(t) and False

        def pr():
            # `,` is accepted between declarations
            return "{%s}.(%s)" % ((" " if sep == " " else ", ").join(e[3]() for e in ents), body.pr()[0]), 90
        return Node(t, lambda env: body.ev(self.bind(ents, env)), pr)

    def block_lit(self, t, d, sc):
        ents, inner = self.decls_exact(d, sc, t[1])
        self.cov("block")

        def ev(env):
            e = self.bind(ents, env)
            return {n: e[n] for n, _, _, _ in ents}
        return Node(t, ev, lambda: ("{%s}" % " ".join(e[3]() for e in ents), 100))

    def decls_exact(self, d, sc, want):
        names = [n for n, _ in want]
        inner = {k: v for k, v in sc.items() if k not in names}
        order = list(range(len(want)))
        self.r.shuffle(order)
        made = {}
        for i in order:
            n, t = want[i]
            node = self.expr(t, d - 1, dict(inner))
            made[i] = (n, t, lambda env, node=node: self.thunk(node, env), lambda n=n, node=node: "%s: %s" % (n, node.pr()[0]))
            inner[n] = t
        return [made[i] for i in range(len(want))], inner

    def fundecl(self, n, t, d, sc):
        """f(params): body, with plain or destructuring parameters"""
        r = self.r
        ps, binders, scope = [], [], {k: v for k, v in sc.items() if k != n}
        taken = [n]
        for pt in t[1]:
            if isinstance(pt, tuple) and pt[0] == "v" and r.random() < .7:
                k = r.randint(1, pt[1])
                full = k == pt[1] and r.random() < .6
                vs = [self.fresh("p", taken) for _ in range(k)]
                if len(set(vs)) < k:
                    vs = ["q%d%s" % (j, len(taken)) for j in range(k)]
                taken += vs
                for v in vs:
                    scope[v] = pt[2]
                if full:
                    ps.append("[%s]" % ", ".join(vs))
                    tv = None
                else:
                    tv = self.fresh("p", taken)
                    taken.append(tv)
                    scope[tv] = lt(pt[2])
                    ps.append("[%s : %s]" % (", ".join(vs), tv))
                self.cov("list pattern")

                def b(env, th, vs=vs, tv=tv):
                    cur = th
                    for v in vs:
                        env[v] = Th(lambda cur=cur: cur.force()[0].force())
                        cur = Th(lambda cur=cur: cur.force()[1].force())
                    if tv:
                        env[tv] = cur
                binders.append(b)
            elif isinstance(pt, tuple) and pt[0] == "r" and r.random() < .6:
                out, sp = [], []
                for f, ft in pt[1]:
                    if r.random() < .3 and out:
                        continue
                    if r.random() < .5 and f not in taken:
                        v = f
                        sp.append(f)
                    else:
                        v = self.fresh("p", taken)
                        sp.append("%s: %s" % (f, v))
                    taken.append(v)
                    scope[v] = ft
                    out.append((f, v))
                sp.sort(key=lambda x: ":" in x)
                ps.append("{%s}" % " ".join(sp))
                self.cov("block pattern")

                def b(env, th, out=out):
                    for f, v in out:
                        env[v] = Th(lambda f=f: th.force()[f].force())
                binders.append(b)
            else:
                v = self.fresh("p", taken)
                taken.append(v)
                scope[v] = pt
                ps.append(v)
                binders.append(lambda env, th, v=v: env.__setitem__(v, th))
        body = self.expr(t[2], d, scope)

        def mkth(env):
            def call(*ths):
                self.m.tick()
                e = dict(env)
                for b, th in zip(binders, ths):
                    b(e, th)
                return body.ev(e)
            return val(Fn(len(t[1]), call))
        jux = len(ps) == 1 and ps[0][0] in "[{" and r.random() < .4
        self.cov("function")
        return (n, t, mkth, lambda: ("%s%s: %s" if jux else "%s(%s): %s") % (n, ", ".join(ps), body.pr()[0]))

    def recursion(self, d, sc):
        """A local recursive function, applied to a small number"""
        r = self.r
        n = self.fresh("f", ())
        a, b = "n%d" % self.nname, "c%d" % self.nname
        self.nname += 1
        self.recs += 1
        if self.recs > 3:
            return self.leaf(N, sc)
        inner = {k: v for k, v in sc.items() if k != n}
        inner.update({a: N, b: N})
        step = self.expr(N, min(d - 1, 2), inner)
        k = r.randint(1, 4)
        init = self.expr(N, d - 2, {x: y for x, y in sc.items() if x != n})
        tail = r.random() < .5
        self.cov("recursion")

        def ev(env):
            init_th = self.thunk(init, env)

            def go(i, acc):
                self.m.tick()
                i = i.force()
                if i <= 0:
                    return acc.force()
                e = dict(env)
                e[a], e[b] = val(i), acc
                nxt = Th(lambda: step.ev(e))
                if tail:
                    return go(val(i - 1), nxt)
                x = nxt.force()
                return ck(x + go(val(i - 1), acc))
            return go(val(k), init_th)

        def pr():
            s = step.pr()
            if tail:
                body = "%s(%s - 1, %s)" % (n, a, s[0])
            else:
                body = "%s + %s(%s - 1, %s)" % (paren(s, 75), n, a, b)
            return "{%s(%s, %s): if(%s <= 0, %s, %s)}.(%s(%d, %s))" % (n, a, b, a, b, body, n, k, init.pr()[0]), 90
        return Node(N, ev, pr)

    # -- calls and projections --
    def call(self, t, d, sc):
        r = self.r
        fs = [(n, u) for n, u in sc.items() if isinstance(u, tuple) and u[0] == "f" and sub(u[2], t)]
        part = [(n, u) for n, u in sc.items() if isinstance(t, tuple) and t[0] == "f" and isinstance(u, tuple) and u[0] == "f"
                and len(u[1]) > len(t[1]) and u[1][-len(t[1]):] == t[1] and u[2] == t[2]]
        if part and r.random() < .6:
            n, u = r.choice(part)
            args = [self.expr(x, d - 1, sc) for x in u[1][:-len(t[1])]]
            self.cov("partial application")
            return Node(t, lambda env: apply(env[n].force(), [self.thunk(a, env) for a in args]),
                        lambda: ("%s(%s)" % (n, ", ".join(a.pr()[0] for a in args)), 90))
        if not fs:
            # an anonymous function of the right type
            if d < 2:
                return None
            at = self.ty(1)
            f = self.expr(("f", (at,), t), d - 2, sc)
            a = self.expr(at, d - 1, sc)
            self.cov("computed function")
            return Node(t, lambda env: apply(f.ev(env), [self.thunk(a, env)]),
                        lambda: ("(%s)(%s)" % (f.pr()[0], a.pr()[0]), 90))
        n, u = r.choice(fs)
        args = [self.expr(x, d - 1, sc) for x in u[1]]
        style = r.random()
        self.cov("call")

        def ev(env):
            self.m.tick()
            return apply(env[n].force(), [self.thunk(a, env) for a in args])

        def pr():
            ps = [a.pr() for a in args]
            if style < .25:
                return "%s %s%s" % (paren(ps[-1], 20), n, "(%s)" % ", ".join(p[0] for p in ps[:-1]) if len(ps) > 1 else ""), 20
            if style < .35 and len(ps) > 1:
                return "%s(%s)(%s)" % (n, ps[0][0], ", ".join(p[0] for p in ps[1:])), 90
            if len(ps) == 1 and ps[0][0][0] in "[{" and ps[0][1] == 100 and style < .7:
                return n + ps[0][0], 90
            return "%s(%s)" % (n, ", ".join(p[0] for p in ps)), 90
        return Node(t, ev, pr)

    def path(self, t, sc):
        """a part of something in scope: parts are reached several times, so they must be shared"""
        r = self.r
        cands = []
        for n, u in sc.items():
            if isinstance(u, tuple) and u[0] == "r":
                cands += [(n, f) for f, ft in u[1] if sub(ft, t)]
            if isinstance(u, tuple) and u[0] == "v" and sub(u[2], t):
                cands += [(n, i) for i in range(u[1])]
        if not cands:
            return None
        n, f = r.choice(cands)
        self.cov("part of a variable")

        def ev(env):
            v = env[n].force()
            if isinstance(f, str):
                return v[f].force()
            for _ in range(f):
                v = v[1].force()
            return v[0].force()
        if isinstance(f, str):
            return Node(t, ev, lambda: ("%s.%s" % (n, f), 90))
        if f == 0 and r.random() < .6:
            return Node(t, ev, lambda: ("head(%s)" % n, 90))
        if f == 1 and r.random() < .5:
            return Node(t, ev, lambda: ("second(%s)" % n, 90))
        return Node(t, ev, lambda: ("(%s !! %d)" % (n, f), 100))

    def project(self, t, d, sc):
        r = self.r
        cands = []
        for n, u in sc.items():
            if isinstance(u, tuple) and u[0] == "r":
                for f, ft in u[1]:
                    if sub(ft, t):
                        cands.append((n, (f,)))
                    elif isinstance(ft, tuple) and ft[0] == "r":
                        cands += [(n, (f, g)) for g, gt in ft[1] if sub(gt, t)]
        if cands and r.random() < .7:
            n, path = r.choice(cands)
            self.cov("lookup")

            def ev(env):
                v = env[n].force()
                for f in path[:-1]:
                    v = v[f].force()
                return v[path[-1]].force()
            if r.random() < .2 and len(path) == 1:
                return Node(t, ev, lambda: ("lookup(:%s, %s)" % (path[0], n), 90))
            return Node(t, ev, lambda: (".".join((n,) + path), 90))
        k = r.random()
        if k < .5:
            # a field of a block expression
            f = r.choice(FIELDS)
            oth = [x for x in r.sample(FIELDS, 2) if x != f]
            rt = ("r", tuple(sorted([(f, t)] + [(o, self.ty(1)) for o in oth])))
            e = self.expr(rt, d - 1, sc)
            self.cov("field of expression")
            dflt = r.random()
            if dflt < .3:
                w = self.expr(t, d - 2, sc)
                return Node(t, lambda env: e.ev(env)[f].force(),
                            lambda: ("%s lookup-or(:%s, %s)" % (paren(e.pr(), 20), f, w.pr()[0]), 20))
            return Node(t, lambda env: e.ev(env)[f].force(), lambda: ("(%s).%s" % (e.pr()[0], f), 90))
        # an element of a list
        n = r.randint(1, 3)
        e = self.expr(("v", n, t), d - 1, sc)
        i = r.randrange(n)

        def ev(env):
            l = e.ev(env)
            for _ in range(i):
                l = l[1].force()
            return l[0].force()
        self.cov("element")
        if i == 0 and r.random() < .5:
            return Node(t, ev, lambda: ("head(%s)" % e.pr()[0], 90)) if r.random() < .5 else \
                Node(t, ev, lambda: (prefixed("↑", paren(e.pr(), 96)), 95))
        if r.random() < .5:
            return Node(t, ev, lambda: ("nth(%d, %s)" % (i, e.pr()[0]), 90))
        return Node(t, ev, lambda: ("%s !! %d" % (paren(e.pr(), 86), i), 85)) if True else None

    # -- lists --
    def list_lit(self, t, items):
        return Node(t, lambda env: mk([self.thunk(x, env) for x in items]),
                    lambda: ("[%s]" % ", ".join(x.pr()[0] for x in items), 100))

    def lst(self, t, d, sc):
        r = self.r
        et = elt(t)
        if t[0] == "v":
            n = t[1]
            k = r.random()
            if k < .2 and n > 1:
                a, b = self.expr(et, d - 1, sc), self.expr(("v", n - 1, et), d - 1, sc)
                s = r.random() < .5
                self.cov("cons")
                return Node(t, lambda env: (self.thunk(a, env), self.thunk(b, env)),
                            lambda: ("cons(%s, %s)" % (a.pr()[0], b.pr()[0]), 90) if s else
                            ("%s ‖ %s" % (paren(a.pr(), 56), paren(b.pr(), 55)), 55))
            return self.list_lit(t, [self.expr(et, d - 1, sc) for _ in range(n)])
        k = r.random()
        if k < .22:
            return self.list_lit(t, [self.expr(et, d - 1, sc) for _ in range(r.randint(0, 3))])
        if k < .40:
            at = self.ty(1)
            f = self.expr(("f", (at,), et), d - 1, sc)
            l = self.expr(lt(at), d - 1, sc)
            if r.random() < .2:
                self.cov("<$>")
                return Node(t, lambda env: self.lmap(self.thunk(f, env), self.thunk(l, env)),
                            lambda: ("%s <$> %s" % (paren(f.pr(), 42), paren(l.pr(), 43)), 42))
            return self.fcall("map", [f, l], t, self.lmap)
        if k < .52:
            p = self.expr(("f", (et,), B), d - 1, sc)
            l = self.expr(t, d - 1, sc)
            name, fn = r.choice([("filter", self.lfilter), ("filter", self.lfilter), ("take-while", self.ltw), ("drop-while", self.ldw)])
            return self.fcall(name, [p, l], t, fn)
        if k < .62:
            a, b = self.expr(t, d - 1, sc), self.expr(t, d - 1, sc)
            self.cov("++")
            return Node(t, lambda env: self.lapp(self.thunk(a, env), self.thunk(b, env)),
                        lambda: ("%s ++ %s" % (paren(a.pr(), 45), paren(b.pr(), 46)), 45))
        if k < .72:
            n = r.randint(0, 3)
            lit = Node(N, lambda env: n, lambda: (str(n), 100), False)
            l = self.expr(t, d - 1, sc)
            if r.random() < .6:
                if r.random() < .4:
                    return self.infinite(t, d, sc)
                return self.fcall("take", [lit, l], t, self.ltake)
            return self.fcall("drop", [lit, l], t, self.ldrop)
        if k < .78:
            l = self.expr(t, d - 1, sc)
            return self.fcall("reverse", [l], t, lambda x: mk(list(reversed(self.spine(x.force())))))
        if k < .88:
            ta, tb = self.ty(1), self.ty(1)
            f = self.expr(("f", (ta, tb), et), d - 1, sc)
            a, b = self.expr(lt(ta), d - 1, sc), self.expr(lt(tb), d - 1, sc)
            return self.fcall("zip-with", [f, a, b], t, self.lzip)
        if k < .94 and et == N:
            a, n = r.randint(0, 3), r.randint(0, 4)
            self.cov("range")
            return Node(t, lambda env: mk([val(i) for i in range(a, a + n)]), lambda: ("range(%d, %d)" % (a, a + n), 90))
        l = self.expr(lt(lt(et)), d - 1, sc)
        return self.fcall("concat", [l], t, lambda x: self.lconcat(x.force()))

    def infinite(self, t, d, sc):
        r = self.r
        et = elt(t)
        n = r.randint(0, 4)
        k = r.random()
        lit = Node(N, lambda env: n, lambda: (str(n), 100), False)
        self.cov("infinite list")
        if k < .4:
            x = self.expr(et, d - 2, sc)

            def rep(th):
                l = Th(None)
                l.v = (th, l)
                return l.v
            inf = self.fcall("repeat", [x], t, rep)
        elif k < .8:
            f, x = self.expr(("f", (et,), et), d - 2, sc), self.expr(et, d - 2, sc)

            def it(f, x):
                return (x, Th(lambda: it(f, Th(lambda: apply(f.force(), [x])))))
            inf = self.fcall("iterate", [f, x], t, it)
        else:
            l = self.list_lit(t, [self.expr(et, d - 2, sc) for _ in range(r.randint(1, 3))])

            def cyc(l):
                return self.lapp(l, Th(lambda: cyc(l)))
            inf = self.fcall("cycle", [l], t, cyc)
        return self.fcall("take", [lit, inf], t, self.ltake)

    def lmap(self, f, l):
        self.m.tick()
        v = l.force()
        return NIL if v == NIL else (Th(lambda: apply(f.force(), [v[0]])), Th(lambda: self.lmap(f, v[1])))

    def lfilter(self, p, l):
        v = l.force()
        while v != NIL:
            self.m.tick()
            if apply(p.force(), [v[0]]):
                v0 = v
                return (v[0], Th(lambda: self.lfilter(p, v0[1])))
            v = v[1].force()
        return NIL

    def ltw(self, p, l):
        """the whole prefix is collected before any of it is delivered"""
        out = []
        v = l.force()
        while v != NIL and apply(p.force(), [v[0]]):
            self.m.tick()
            out.append(v[0])
            v = v[1].force()
        return mk(out)

    def ldw(self, p, l):
        v = l.force()
        while v != NIL and apply(p.force(), [v[0]]):
            self.m.tick()
            v = v[1].force()
        return v

    def lapp(self, a, b):
        self.m.tick()
        v = a.force()
        return b.force() if v == NIL else (v[0], Th(lambda: self.lapp(v[1], b)))

    def ltake(self, n, l):
        self.m.tick()
        k = n.force()
        if k <= 0:
            return NIL
        v = l.force()
        return NIL if v == NIL else (v[0], Th(lambda: self.ltake(val(k - 1), v[1])))

    def ldrop(self, n, l):
        v = l.force() if n.force() > 0 else None
        if v is None:
            return l.force()
        for _ in range(n.force()):
            if v == NIL:
                raise Reject("drop past the end")
            v = v[1].force()
        return v

    def lzip(self, f, a, b):
        self.m.tick()
        x = a.force()
        if x == NIL:
            return NIL
        y = b.force()
        if y == NIL:
            return NIL
        return (Th(lambda: apply(f.force(), [x[0], y[0]])), Th(lambda: self.lzip(f, x[1], y[1])))

    def lconcat(self, l):
        self.m.tick()
        return NIL if l == NIL else self.lapp(l[0], Th(lambda: self.lconcat(l[1].force())))

    def listfold(self, d, sc):
        r = self.r
        et = self.ty(0)
        right = r.random() < .5
        f = self.expr(("f", (et, N) if right else (N, et), N), d - 1, sc)
        i = self.expr(N, d - 1, sc)
        l = self.expr(lt(et), d - 1, sc)
        if right:
            def fr(f, i, l):
                self.m.tick()
                v = l.force()
                return i.force() if v == NIL else apply(f.force(), [v[0], Th(lambda: fr(f, i, v[1]))])
            return self.fcall("foldr", [f, i, l], N, fr)

        def fl(f, i, l):
            v = l.force()
            acc = i
            while v != NIL:
                self.m.tick()
                acc = Th(lambda acc=acc, h=v[0]: apply(f.force(), [acc, h]))
                v = v[1].force()
            return acc.force()
        return self.fcall("foldl", [f, i, l], N, fl)

    # -- records --
    def rec(self, t, d, sc):
        r = self.r
        if r.random() < .3 and len(t[1]) > 0:
            # catenation merges, the later wins
            fs = list(t[1])
            left = [f for f in fs if r.random() < .6] or fs[:1]
            right = [f for f in fs if f not in left or r.random() < .3] or fs[-1:]
            a = self.expr(("r", tuple(left)), d - 1, sc)
            b = self.expr(("r", tuple(right)), d - 1, sc)
            self.cov("merge")

            def ev(env):
                x = a.ev(env)
                return {**x, **b.ev(env)}
            if r.random() < .5:
                return Node(t, ev, lambda: ("merge(%s, %s)" % (a.pr()[0], b.pr()[0]), 90))
            return Node(t, ev, lambda: ("%s %s" % (paren(a.pr(), 20), paren(b.pr(), 21)), 20))
        return self.block_lit(t, d, sc)

    # -- functions --
    def fun(self, t, d, sc):
        r = self.r
        ps, rt = t[1], t[2]
        k = r.random()
        if len(ps) == 1 and d > 0:
            if k < .12:
                mid = self.ty(0)
                f, g = self.expr(("f", (mid,), rt), d - 1, sc), self.expr(("f", ps, mid), d - 1, sc)
                self.cov("composition")

                def ev(env):
                    a, b = self.thunk(f, env), self.thunk(g, env)
                    return Fn(1, lambda x: apply(a.force(), [Th(lambda: apply(b.force(), [x]))]))
                fwd = r.random() < .5

                # the two associate differently, so one inside the other is parenthesised
                def comp():
                    if fwd:
                        return "%s ; %s" % (paren(g.pr(), 88), paren(f.pr(), 89)), 88
                    q = g.pr()
                    return "%s ∘ %s" % (paren(f.pr(), 89), q[0] if q[1] == 87.5 else paren(q, 89)), 87.5
                return Node(t, ev, comp)
            if k < .2:
                a = self.expr(rt, d - 1, sc)
                self.cov("const")
                return Node(t, lambda env: (lambda th: Fn(1, lambda x: th.force()))(self.thunk(a, env)),
                            lambda: ("const(%s)" % a.pr()[0], 90))
            if k < .26 and ps[0] == rt:
                return Node(t, lambda env: Fn(1, lambda x: x.force()), lambda: ("identity", 100))
            if k < .5 and ps[0] == N:
                # section
                ops = [o for o in self.ops if o.ta == N and o.tb == N and o.tr == rt]
                if ops:
                    o = r.choice(ops)
                    vs = [n for n, u in sc.items() if u == N]
                    a = Var(N, r.choice(vs)) if vs and r.random() < .5 else self.leaf(N, {})
                    self.cov("section")
                    if r.random() < .5:
                        return Node(t, lambda env: (lambda th: Fn(1, lambda x: o.fn(self.m, x, th)))(self.thunk(a, env)),
                                    lambda: ("(%s %s)" % (o.sym, a.pr()[0]), 100))
                    return Node(t, lambda env: (lambda th: Fn(1, lambda x: o.fn(self.m, th, x)))(self.thunk(a, env)),
                                lambda: ("(%s %s)" % (a.pr()[0], o.sym), 100))
            if k < .6 and rt == S and ps[0] in (N, S):
                self.cov("string anaphora")
                two = r.random() < .3
                return Node(t, lambda env: Fn(1, lambda x: self.cks(("<%s|%s>" if two else "<%s>") % ((self.tos(x.force()),) * (2 if two else 1)))),
                            lambda: ('"<{0}|{0}>"' if two else '"<{}>"', 100))
        if len(ps) == 2 and k < .25:
            ops = [o for o in self.ops if (o.ta, o.tb) == ps and o.tr == rt]
            if ops:
                o = r.choice(ops)
                self.cov("operator as function")
                return Node(t, lambda env: Fn(2, lambda x, y: o.fn(self.m, x, y)), lambda: ("(%s)" % o.sym, 100))
        if k < .55 and d > 0 and all(p in SCALAR for p in ps) and rt in (N, B):
            # expression anaphora: operators over atoms
            names = {"_%d" % i: p for i, p in enumerate(ps)}
            atoms = {n: u for n, u in sc.items() if u in SCALAR}
            g = Gen.__new__(Gen)
            g.__dict__.update(self.__dict__)
            body = self.anaphor(rt, 2, names, atoms)
            # a lone anaphor in parentheses is out of scope: there must be an operator
            if body and body[1] == set(names) and body[0].pr()[1] < 90:
                self.cov("anaphora")
                node = body[0]
                return Node(t, lambda env: Fn(len(ps), lambda *xs: node.ev({**env, **{"_%d" % i: x for i, x in enumerate(xs)}})),
                            lambda: ("(%s)" % node.pr()[0], 100))
        # a local named function
        n = self.fresh("f", ())
        fd = self.fundecl(n, t, d - 1, {a: b for a, b in sc.items()})
        self.cov("local function")
        return Node(t, lambda env: fd[2]({x: y for x, y in env.items() if x != n}).force(), lambda: ("{%s}.%s" % (fd[3](), n), 90))

    def anaphor(self, t, d, names, atoms):
        """(node, used anaphora): operator expressions over anaphora, variables and literals"""
        r = self.r
        if d <= 0 or r.random() < .2:
            an = [n for n, u in names.items() if u == t]
            if an and r.random() < .75:
                n = r.choice(an)
                return Var(t, n), {n}
            vs = [n for n, u in atoms.items() if u == t]
            if vs and r.random() < .5:
                return Var(t, r.choice(vs)), set()
            return self.leaf(t, {}), set()
        ops = [o for o in OPS if o.tr == t]
        if not ops:
            return self.leaf(t, {}), set()
        o = r.choice(ops)
        a, b = self.anaphor(o.ta, d - 1, names, atoms), self.anaphor(o.tb, d - 1, names, atoms)
        x, y = a[0], b[0]
        # parentheses would open a new anaphoric scope, so only unparenthesised nestings are kept
        node = self.infix(o, x, y)
        la, ra = (o.prec, o.prec + 1)
        if x.pr()[1] < la or y.pr()[1] < ra:
            return self.leaf(t, {}), set()
        return node, a[1] | b[1]

    # -- whole programs --
    def program(self):
        """Sets self.src, self.expected (a JSON value), self.events (label -> count)."""
        r = self.r
        n = r.randint(2, 6)
        sc = {}
        ents = []
        used = set()
        # user operators
        opsrc = []
        for sym in r.sample(["+++", "<+>", "⊘⊘", "**>", "~>", "§"], r.choice([0, 0, 1, 2])):
            prec, pname = r.choice([(75, ":sum"), (80, ":prod"), (85, ":exp"), (45, ":append"), (60, "60"), (77, "77"), (40, ":eq"), (50, None)])
            assoc = r.choice(["l", "r"]) if pname else "l"
            if assoc == "r":
                # operators of one precedence that associate differently are not modelled
                prec = r.choice([47, 62, 78, 82]) + len(opsrc)
                pname = str(prec)
            body = r.choice([("l - r", lambda m, a, b: ck(a.force() - b.force())), ("l * 2 + r", lambda m, a, b: ck(a.force() * 2 + b.force())),
                             ("if(l > 3, l, r)", lambda m, a, b: a.force() if a.force() > 3 else b.force()), ("r - l * 3", lambda m, a, b: ck(b.force() - a.force() * 3))])
            meta = []
            if assoc == "r":
                meta.append("associates: :right")
            elif pname and r.random() < .5:
                meta.append("associates: :left")
            if pname:
                meta.append("precedence: " + pname)
            r.shuffle(meta)
            opsrc.append(("` { %s }\n" % " ".join(meta) if meta else "") + "(l %s r): %s" % (sym, body[0]))
            self.ops = self.ops + [Op(sym, prec, assoc, N, N, N, body[1])] * 3
            self.cov("user operator")
        allx = []
        for i in range(n):
            fn = r.random() < .5
            name = ("tf%d" if fn else "tv%d") % i
            t = self.fty() if fn else self.ty(2)
            if not fn and isinstance(t, tuple) and t[0] == "f":
                t = N
            if fn:
                ents.append(self.fundecl(name, t, self.depth - 1, dict(sc)))
            else:
                node = self.expr(t, self.depth - 1, dict(sc))
                ents.append((name, t, lambda env, node=node: self.thunk(node, env), lambda name=name, node=node: "%s: %s" % (name, node.pr()[0])))
            sc[name] = t
        mt = self.ty(2, .4)
        while isinstance(mt, tuple) and self.has_fn(mt):
            mt = self.ty(2, .4)
        main = self.expr0(mt, self.depth, dict(sc))
        ents.append(("main", mt, lambda env: self.thunk(main, env), lambda: "main: %s" % main.pr()[0]))
        env = self.bind(ents, {})
        self.m.fuel = 60000
        self.whole = r.random() < .35 and not any(self.has_fn(e[1]) and not e[1][0] == "f" for e in ents if isinstance(e[1], tuple))
        self.expected = self.deep(env["main"])
        if self.whole:
            self.expected = {e[0]: self.deep(env[e[0]]) for e in ents if not (isinstance(e[1], tuple) and e[1][0] == "f")}
        order = list(ents)
        r.shuffle(order)
        self.traced = set()
        self.dead = "loop" if r.random() < .3 else "panic"
        lines = opsrc + ["loop-forever(n): loop-forever(n + 1)"] * (self.dead == "loop") + [e[3]() for e in order]
        self.src = "\n".join(lines) + "\n"
        self.events = {"t%d" % i: self.m.fired[i] for i in self.traced}
        self.deadsites = sum(1 for v in self.m.fired.values() if v == 0)

    def has_fn(self, t):
        if not isinstance(t, tuple):
            return False
        if t[0] == "f":
            return True
        if t[0] == "r":
            return any(self.has_fn(v) for _, v in t[1])
        return self.has_fn(elt(t))

    def deep(self, th, d=0):
        v = th.force()
        self.m.tick()
        if isinstance(v, dict):
            return {k: self.deep(x) for k, x in v.items()}
        if isinstance(v, tuple):
            return [self.deep(x) for x in self.spine(v)]
        if isinstance(v, Fn):
            raise Reject("function in output")
        return v


class Var(Node):
    __slots__ = ("name",)

    def __init__(self, t, name):
        self.t, self.name = t, name
        self.ev = lambda env: env[name].force()
        self.pr = lambda: (name, 100)
        self.sited = False


def with_stack(f):
    """Run f in a thread with a deep stack."""
    out = []

    def go():
        try:
            out.append((True, f()))
        except BaseException as e:
            out.append((False, e))
    old = threading.stack_size(512 << 20)
    try:
        t = threading.Thread(target=go)
        t.start()
        t.join()
    finally:
        threading.stack_size(old)
    ok, v = out[0]
    if not ok:
        raise v
    return v


def programs(r, n, **kw):
    """n programs accepted by the model"""
    out = []
    tries = 0
    while len(out) < n and tries < n * 40:
        tries += 1
        g = Gen(r, **kw)
        try:
            g.program()
        except (Reject, RecursionError):
            continue
        if len(g.src) > 12000:
            continue
        # most programs should exercise several needed sites
        if g.sites and sum(1 for v in g.m.fired.values() if v) < 3 and r.random() < .7:
            continue
        out.append(g)
    return out
