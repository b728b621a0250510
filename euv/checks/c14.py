"""C14: monads, state and lenses obey their laws.

Random action terms over several monads are rendered in randomly chosen spellings (bind,
and-then, then, map, join, sequence, map-m, filter-m, every monadic block form) and compared
with an interpreter of the same term in Python; lens programs are compared with a model of
paths into data and with the get-put, put-get and put-put laws."""
import copy
from ..batch import *
from ..val import *
from .c10 import ordj, HEADER as H10

HEADER = '{ import: ["resource:state", "resource:lens"] }\n' + H10 + """
maybe-bind(m, f): if(m = null, null, f(m))
maybe-return(v): v
` { monad: true }
may: monad{bind: maybe-bind, return: maybe-return}
wr-return(a): {v: a, log: []}
wr-bind(m, f): { n: f(m.v) v: n.v log: m.log ++ n.log }
` { monad: true }
wr: monad{bind: wr-bind, return: wr-return} { tell(w, x): {v: x, log: [w]} }
cnt-return(v, s): {value: v, state: s}
cnt-bind(m, f, s): { r: m(s) run: f(r.value)(r.state) value: run.value state: run.state }
` { monad: true }
cnt: monad{bind: cnt-bind, return: cnt-return}
cnt-tick(x, s): {value: x + s, state: s + 1}
` { monad: true }
plain: { bind(m, f): f(m), return(v): v }
let-bind: let.bind
let-return: let.return
for-bind: for.bind
for-return: for.return
state-bind1: state.bind
state-return1: state.return
may-bind: maybe-bind
may-return: maybe-return
plain-bind: plain.bind
plain-return: plain.return
⟦{}⟧: { :monad bind: maybe-bind return: maybe-return }
⌈{}⌉: { :monad namespace: wr }
⟪{}⟫: { :monad bind: for-bind return: for-return }
⌊{}⌋: { :monad namespace: cnt }
⦃{}⦄: { :monad namespace: state }
c14sum(xs): xs foldl(+, 0)
c14proj(a, b): a * 3 + b
c14even?(x): x % 2 = 0
c14pos?(x): x > 0
c14qn(s): s.n
c14qk(s): s.n * 10 + s.k
c14inc(x): x + 1
c14dbl(x): x * 2
c14bump(s): s { n: s.n + 7 }
c14run(a, s): { r: state.run(a, s) }.[r.value, c10o(r.state)]
c14crun(a, s): { r: a(s) }.[r.value, r.state]
"""
BR = {"may": "⟦⟧", "wr": "⌈⌉", "for": "⟪⟫", "cnt": "⌊⌋", "state": "⦃⦄"}


# ---------------------------------------------------------------- models
class M:
    """A monad in Python plus its primitive actions."""

    def __init__(self, name, ret, bind, prim, run, jrun):
        self.name, self.ret, self.bind, self.prim, self.run, self.jrun = name, ret, bind, prim, run, jrun


def p_let(g, env):
    e = g.expr(env)
    return e[0], e[1]


def p_for(g, env):
    es = [g.expr(env) for _ in range(g.r.choice([0, 1, 1, 2, 2, 3]))]
    return "[%s]" % ", ".join(e[0] for e in es), lambda v: [e[1](v) for e in es]


def p_may(g, env):
    if g.r.random() < .12:
        return "null", lambda v: None
    return p_let(g, env)


def p_wr(g, env):
    e, w = g.expr(env), g.expr(env)
    return "wr.tell(%s, %s)" % (w[0], e[0]), lambda v: (e[1](v), [w[1](v)])


def p_cnt(g, env):
    e = g.expr(env)
    return "cnt-tick(%s)" % e[0], lambda v: lambda s: (e[1](v) + s, s + 1)


def p_state(g, env):
    r = g.r
    e = g.expr(env)
    k = r.choice(["n", "k"])
    j = r.randrange(9)

    def upd(s, key, f):
        d = dict(s)
        d[key] = f(d[key])
        return d
    if j == 0:
        return "state.query(c14qk)", lambda v: lambda s: (s["n"] * 10 + s["k"], s)
    if j == 1:
        return "state.map(c14qn, state.get)", lambda v: lambda s: (s["n"], s)
    if j == 2:
        key = r.choice(["n", "k", "z"])
        return "state.map(-> 4, state.put(:%s, %s))" % (key, e[0]), lambda v: lambda s: (4, {**s, key: e[1](v)})
    if j == 3:
        return "state.map(-> 5, state.modify(:%s, c14dbl))" % k, lambda v: lambda s: (5, upd(s, k, lambda x: x * 2))
    if j == 4:
        return "state.map(-> 6, state.lift(c14bump))", lambda v: lambda s: (6, upd(s, "n", lambda x: x + 7))
    if j == 5:
        lens = r.choice([":%s", "at(:%s)", "‹:%s›"]) % k
        return "state.map(-> 7, (%s =! (%s)))" % (lens, e[0]), lambda v: lambda s: (7, upd(s, k, lambda x: e[1](v)))
    if j == 6:
        lens = r.choice([":%s", "at(:%s)", "‹:%s›"]) % k
        return "state.map(-> 8, (%s %%! c14inc))" % lens, lambda v: lambda s: (8, upd(s, k, lambda x: x + 1))
    if j == 7:
        return "state.query(_.%s + %s)" % (k, e[0]), lambda v: lambda s: (s[k] + e[1](v), s)
    return "state.query(c14qn)", lambda v: lambda s: (s["n"], s)


def sbind(m, f):
    def go(s):
        v, s1 = m(s)
        return f(v)(s1)
    return go


MON = {
    "let": M("let", lambda v: v, lambda m, f: f(m), p_let, lambda t: t, lambda x: x),
    "plain": M("plain", lambda v: v, lambda m, f: f(m), p_let, lambda t: t, lambda x: x),
    "for": M("for", lambda v: [v], lambda m, f: [y for x in m for y in f(x)], p_for, lambda t: t, lambda x: x),
    "may": M("may", lambda v: v, lambda m, f: None if m is None else f(m), p_may, lambda t: t, lambda x: x),
    "wr": M("wr", lambda v: (v, []), lambda m, f: (lambda n: (n[0], m[1] + n[1]))(f(m[0])), p_wr,
            lambda t: "{w: %s}.[w.v, w.log]" % t, lambda x: [x[0], x[1]]),
    "cnt": M("cnt", lambda v: lambda s: (v, s), sbind, p_cnt, lambda t: "c14crun(%s, 3)" % t, lambda x: list(x(3))),
    "state": M("state", lambda v: lambda s: (v, s), sbind, p_state, lambda t: "c14run(%s, {n: 1, k: 2})" % t,
               lambda x: (lambda r: [r[0], ordj(r[1])])(x({"n": 1, "k": 2}))),
}


class G:
    """Each action is (text, env -> model action) of an action yielding an integer."""

    def __init__(self, r, m):
        self.r, self.m, self.n, self.forms = r, m, 0, set()
        self.full = m.name != "plain"     # plain has only bind and return

    def fresh(self):
        self.n += 1
        return "v%d" % self.n

    def expr(self, env, d=2):
        r = self.r
        if env and r.random() < .6 or d == 0:
            if env and r.random() < .8:
                x = r.choice(env)
                return x, lambda v: v[x]
        if d == 0 or r.random() < .5:
            n = r.randint(0, 9)
            return str(n), lambda v: n
        a, b = self.expr(env, d - 1), self.expr(env, d - 1)
        op = r.choice("+-*")
        f = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y}[op]
        return "(%s %s %s)" % (a[0], op, b[0]), lambda v: f(a[1](v), b[1](v))

    def act(self, env, d):
        r, m = self.r, self.m
        k = r.random()
        if d <= 0 or k < .12:
            return m.prim(self, env)
        if k < .2:
            e = self.expr(env)
            return "%s.return(%s)" % (m.name, e[0]), lambda v: m.ret(e[1](v))
        if not self.full:
            return self.bind(env, d) if k < .5 else self.block(env, d)
        if k < .42:
            return self.bind(env, d)
        if k < .48:
            a, b = self.act(env, d - 1), self.act(env, d - 1)
            t = r.choice(["%s.then(%s, %s)" % (m.name, b[0], a[0]), "((%s) %s.then(%s))" % (a[0], m.name, b[0])])
            self.forms.add("then")
            return t, lambda v: m.bind(a[1](v), lambda _: b[1](v))
        if k < .55:
            a, x = self.act(env, d - 1), self.fresh()
            e = self.expr(env + [x])
            self.forms.add("map")
            return "{ g%s(%s): %s }.(%s.map(g%s, %s))" % (x, x, e[0], m.name, x, a[0]), lambda v: m.bind(a[1](v), lambda y: m.ret(e[1]({**v, x: y})))
        if k < .6:
            a = self.act(env, d - 1)
            self.forms.add("join")
            return "%s.join(%s.return(%s))" % (m.name, m.name, a[0]), a[1]
        if k < .67:
            as_ = [self.act(env, d - 2) for _ in range(r.choice([0, 1, 2, 3]))]
            self.forms.add("sequence")

            def seq(v):
                def go(i, acc):
                    return m.ret(sum(acc)) if i == len(as_) else m.bind(as_[i][1](v), lambda y: go(i + 1, acc + [y]))
                return go(0, [])
            return "%s.map(c14sum, %s.sequence([%s]))" % (m.name, m.name, ", ".join(a[0] for a in as_)), seq
        if k < .77:
            x = self.fresh()
            xs = [self.expr(env) for _ in range(r.choice([0, 1, 2, 3]))]
            b = self.act(env + [x], d - 2)
            flt = r.random() < .4
            self.forms.add("filter-m" if flt else "map-m")

            def mm(v):
                vals = [e[1](v) for e in xs]

                def go(i, acc):
                    if i == len(vals):
                        return m.ret(sum(acc))
                    return m.bind(b[1]({**v, x: vals[i]}), lambda y: go(i + 1, acc + ([vals[i]] if y % 2 == 0 else []) if flt else acc + [y]))

                def gof(i):      # filter-m binds the predicate of the head before the rest
                    return go(i, [])
                return gof(0)
            body = "%s.map(c14even?, %s)" % (m.name, b[0]) if flt else b[0]
            return "{ h%s(%s): %s }.(%s.map(c14sum, %s.%s(h%s, [%s])))" % (x, x, body, m.name, m.name, "filter-m" if flt else "map-m", x, ", ".join(e[0] for e in xs)), mm
        return self.block(env, d)

    def bind(self, env, d):
        r, m = self.r, self.m
        x = self.fresh()
        a, b = self.act(env, d - 1), self.act(env + [x], d - 1)
        j = r.randrange(4) if self.full else 0
        call = ["%s.bind(%s, k%s)" % (m.name, a[0], x), "((%s) %s.and-then(k%s))" % (a[0], m.name, x),
                "%s.join(%s.map(k%s, %s))" % (m.name, m.name, x, a[0]), "%s.and-then(k%s, %s)" % (m.name, x, a[0])][j]
        self.forms.add(["bind", "and-then", "join-map", "and-then"][j])
        return "{ k%s(%s): %s }.(%s)" % (x, x, b[0], call), lambda v: m.bind(a[1](v), lambda y: b[1]({**v, x: y}))

    def block(self, env, d):
        r, m = self.r, self.m
        n = r.choice([1, 2, 2, 3])
        steps, cur = [], list(env)
        for i in range(n):
            x = self.fresh() if r.random() < .8 else r.choice(["_", "_" + self.fresh()])
            steps.append((x, self.act(cur, d - 2 if i else d - 1)))
            if x != "_" and x not in cur:
                cur = cur + [x]
        form = r.choice([1, 1, 2, 3, 4, "b"] if m.name in BR else [1, 1, 2, 3, 4])
        seen = [x for x, _ in steps if not x.startswith("_")]
        allnames = [x for x, _ in steps if x != "_"]
        kinds = ["expr", "expr", "name", "list"] + (["implicit"] if len(seen) >= 2 and len(seen) == len(set(seen)) and self.full else [])
        kind = r.choice(kinds)
        sep = r.choice([" ", ", ", "\n    "])
        decls = sep.join("%s: %s" % (x, a[0]) for x, a in steps)
        if form == 1:
            head = "{ :%s %s }" % (m.name, decls)
        elif form == 2:
            head = "{ { monad: %s } %s }" % (m.name, decls)
        elif form == 3:
            head = "{ { :monad namespace: %s } %s }" % (m.name, decls)
        elif form == 4:
            head = "{ { :monad bind: %s return: %s } %s }" % ((("state-bind1", "state-return1") if m.name == "state" else (m.name + "-bind", m.name + "-return")) + (decls,))
        else:
            head = "%s %s %s" % (BR[m.name][0], decls, BR[m.name][1])
        post = None
        if kind == "name" and allnames:
            x = r.choice(allnames)
            tail, fin = "." + x, lambda v: v[x]
        elif kind == "list" and self.full:
            e1, e2 = self.expr(cur), self.expr(cur)
            tail, fin, post = ".[%s, %s]" % (e1[0], e2[0]), lambda v: e1[1](v) + e2[1](v), "c14sum"
        elif kind == "implicit" and form in (1, "b"):
            a, b = r.sample(seen, 2)
            nm = self.fresh()
            tail, fin = "", lambda v: v[a] * 3 + v[b]
            post = "p" + nm
        else:
            kind = "expr"
            e = self.expr(cur)
            tail, fin = ".(%s)" % e[0], e[1]
        self.forms.add("block form %s %s" % (form, kind))
        t = head + tail
        if post == "c14sum":
            t = "%s.map(c14sum, %s)" % (m.name, t)
        elif post:
            t = "{ %s(b): c14proj(b.%s, b.%s) }.(%s.map(%s, %s))" % (post, a, b, m.name, post, t)

        def sem(v):
            def go(i, w):
                if i == len(steps):
                    return m.ret(fin(w))
                x, act = steps[i]
                return m.bind(act[1](w), lambda y: go(i + 1, {**w, x: y} if x != "_" else w))
            return go(0, v)
        return t, sem


class TooBig(Exception):
    pass


def monad_cases(ctx, r, out):
    nm = r.choice(["let", "for", "may", "wr", "cnt", "state", "plain", "for", "state"])
    m = MON[nm]
    g = G(r, m)
    t, sem = g.act([], r.choice([2, 3, 4]))
    if len(t) > 6000:
        return
    try:
        w = m.jrun(sem({}))
    except RecursionError:
        return
    if nm == "for" and len(w) > 200 or len(json.dumps(w)) > 3000 or any(abs(x) > 10**15 for x in ints(w)):
        return
    for f in g.forms:
        ctx.cov("form " + f)
    out.append(Case(m.run(t), w, kind="monad " + nm))


def ints(x):
    if isinstance(x, list):
        for y in x:
            yield from ints(y)
    elif isinstance(x, int):
        yield x


def law_cases(r, out):
    """The three laws and the derived combinators against their definitions, within the language."""
    nm = r.choice(["let", "for", "may", "wr", "cnt", "state"])
    m = MON[nm]
    g = G(r, m)
    a = g.act([], 2)
    x, y = g.fresh(), g.fresh()
    f, h = g.act([x], 2), g.act([y], 2)
    e = g.expr([])
    pre = "kf(%s): %s kh(%s): %s kc(%s): %s.bind(kf(%s), kh) kid(%s): %s.return(%s)" % (x, f[0], y, h[0], x, nm, x, x, nm, x)
    if sum(map(len, (a[0], f[0], h[0]))) > 3000:
        return
    run = lambda t: m.run(t)
    eq = [("left identity", "%s.bind(%s.return(%s), kf)" % (nm, nm, e[0]), "kf(%s)" % e[0]),
          ("right identity", "%s.bind(%s, kid)" % (nm, a[0]), a[0]),
          ("associativity", "%s.bind(%s.bind(%s, kf), kh)" % (nm, nm, a[0]), "%s.bind(%s, kc)" % (nm, a[0])),
          ("map is bind then return", "%s.map(c14inc, %s)" % (nm, a[0]), "%s.bind(%s, c14inc ; %s.return)" % (nm, a[0], nm)),
          ("map identity", "%s.map(identity, %s)" % (nm, a[0]), a[0]),
          ("map composition", "%s.map(c14inc ; c14dbl, %s)" % (nm, a[0]), "%s.map(c14dbl, %s.map(c14inc, %s))" % (nm, nm, a[0])),
          ("join of map is bind", "%s.join(%s.map(kf, %s))" % (nm, nm, a[0]), "%s.bind(%s, kf)" % (nm, a[0])),
          ("sequence of map is map-m", "%s.sequence([1, 2] map(kf))" % nm, "%s.map-m(kf, [1, 2])" % nm)]
    for name, l, q in eq:
        try:
            big = len(json.dumps(m.jrun(m.bind(m.bind(a[1]({}), lambda v: f[1]({x: v})), lambda v: h[1]({y: v}))))) > 3000
        except RecursionError:
            return
        if big:
            return
        out.append(Case("{ %s }.{l: %s, r: %s}" % (pre, run(l), run(q)), Pred(lambda v: same(v["l"], v["r"]), "both sides equal"), kind=name))


# ---------------------------------------------------------------- lenses
def data(r, d):
    if d == 0:
        return r.randint(-9, 9)
    if r.random() < .55:
        return {k: data(r, d - 1 if r.random() < .8 else 0) for k in r.sample(["alpha", "bravo", "cc", "dd", "echo", "fox"], r.randint(1, 4))}
    return [data(r, d - 1 if r.random() < .8 else 0) for _ in range(r.randint(1, 4))]


def paths(v, p=()):
    yield p
    if isinstance(v, dict):
        for k in v:
            yield from paths(v[k], p + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from paths(x, p + (i,))


def get(v, p):
    for k in p:
        v = v[k]
    return v


def put(v, p, x):
    if not p:
        return x
    if isinstance(v, dict):
        return {k: put(y, p[1:], x) if k == p[0] else y for k, y in v.items()}
    return [put(y, p[1:], x) if i == p[0] else y for i, y in enumerate(v)]


def steps(r, v, p):
    """Spell a path as composed optics."""
    out = []
    for k in p:
        if isinstance(k, str):
            out.append(r.choice(["at(:%s)" % k, "at(:%s)" % k, "‹:%s›" % k, "(element(by-key(_ = :%s)) ∘ _value)" % k]))
        else:
            i = v.index(v[k])
            c = ["ix(%d)" % k, "‹%d›" % k, "ix(%s)" % lz(k, r, 1.0)]
            if i == k and isinstance(v[k], int) and sum(1 for q in v if isinstance(q, int) and q == v[k]) >= 1 and all(isinstance(q, int) for q in v):
                c.append("item(_ = %s)" % to_eu(v[k]))
            out.append(r.choice(c))
        v = v[k]
    if len(p) >= 2 and r.random() < .4:
        return "‹%s›" % " ".join(":" + k if isinstance(k, str) else str(k) if r.random() < .7 else "ix(%d)" % k for k in p)
    return " ∘ ".join(out)


def lens_cases(r, out):
    d = data(r, r.choice([1, 2, 3]))
    ps = [p for p in paths(d) if p]
    p = r.choice(ps)
    L, D = steps(r, d, p), lz(d, r)
    L2 = steps(r, d, p)
    f = get(d, p)
    x, y = data(r, r.choice([0, 0, 1])), data(r, 0)

    def c(kind, e, w):
        out.append(Case("c10o(%s)" % e, ordj(w), kind="lens " + kind))
    X, Y = lz(x, r), lz(y, r)
    c("view", "%s view(%s)" % (D, L), f)
    c("set", "%s over(%s, -> %s)" % (D, L, X), put(d, p, x))
    if isinstance(f, int):
        c("over", "over(%s, c14dbl, %s)" % (L, D), put(d, p, f * 2))
    c("to-list-of", "%s to-list-of(%s)" % (D, L), [f])
    c("get-put", "{d: %s}.(d over(%s, -> (d view(%s))))" % (D, L, L2), d)
    if "item(" not in L:
        c("put-get", "%s over(%s, -> %s) view(%s)" % (D, L, X, L), x)
        c("put-put", "%s over(%s, -> %s) over(%s, -> %s)" % (D, L, X, L, Y), put(d, p, y))
    if len(p) >= 2:
        i = r.randint(1, len(p) - 1)
        c("composition", "%s view(%s) view(%s)" % (D, steps(r, d, p[:i]), steps(r, get(d, p[:i]), p[i:])), f)
        # prefix lens ∘ suffix lens focuses as the whole path
        c("composed set", "%s over((%s) ∘ (%s), -> %s)" % (D, steps(r, d, p[:i]), steps(r, get(d, p[:i]), p[i:]), X), put(d, p, x))


def trav_cases(r, out):
    shape = r.randrange(7)
    n = r.choice([0, 1, 2, 3, 5])
    xs = [r.randint(-6, 6) for _ in range(n)]
    t = r.randint(-3, 3)

    def c(kind, e, w):
        out.append(Case("c10o(%s)" % e, ordj(w), kind="traversal " + kind))
    if shape == 0:
        T, d = "each", xs
        foc, upd = list(xs), lambda fs: list(fs)
    elif shape == 1:
        T, d = "filtered(_ > %s)" % to_eu(t), xs
        idx = [i for i, v in enumerate(xs) if v > t]
        foc = [xs[i] for i in idx]

        def upd(fs):
            o = list(xs)
            for i, v in zip(idx, fs):
                o[i] = v
            return o
    elif shape == 2:
        T = "each ∘ at(:v)"
        d = [{"id": i, "v": v} for i, v in enumerate(xs)]
        foc, upd = list(xs), lambda fs: [{"id": i, "v": v} for i, v in enumerate(fs)]
    elif shape == 3:
        rows = [[r.randint(-6, 6) for _ in range(r.randint(0, 3))] for _ in range(n)]
        T, d = "each ∘ each", rows
        foc = [v for q in rows for v in q]

        def upd(fs):
            it = iter(fs)
            return [[next(it) for _ in q] for q in rows]
    elif shape == 4:
        ks = r.sample(["alpha", "zz", "mm", "bravo", "q1"], n)
        T, d = "each-element ∘ _value", dict(zip(ks, xs))
        foc, upd = list(xs), lambda fs: dict(zip(ks, fs))
    elif shape == 5:
        ks = r.sample(["alpha", "zz", "mm", "bravo", "q1"], n)
        T, d = "filtered-elements(by-value(_ > %s)) ∘ _value" % to_eu(t), dict(zip(ks, xs))
        idx = [k for k, v in zip(ks, xs) if v > t]
        foc = [d[k] for k in idx]
        upd = lambda fs: {k: dict(zip(idx, fs)).get(k, d[k]) for k in ks}
    else:
        T = "at(:x) ∘ filtered(_.y > %s) ∘ at(:y)" % to_eu(t)
        d = {"a": 1, "x": [{"y": v, "z": i} for i, v in enumerate(xs)], "b": 2}
        idx = [i for i, v in enumerate(xs) if v > t]
        foc = [xs[i] for i in idx]

        def upd(fs):
            o = copy.deepcopy(d)
            for i, v in zip(idx, fs):
                o["x"][i]["y"] = v
            return o
    D = lz(d, r)
    c("foci", "%s to-list-of(%s)" % (D, T), foc)
    c("over", "%s over(%s, c14dbl)" % (D, T), upd([v * 2 for v in foc]))
    c("identity", "%s over(%s, identity)" % (D, T), d)
    c("parts-of view", "%s view(parts-of(%s))" % (D, T), foc)
    c("parts-of reverse", "%s over(parts-of(%s), reverse)" % (D, T), upd(foc[::-1]))
    c("parts-of assign", "%s over(parts-of(%s), -> %s)" % (D, T, to_eu([i * 100 for i in range(len(foc))])), upd([i * 100 for i in range(len(foc))]))
    c("composition of overs", "%s over(%s, c14inc) over(%s, c14dbl)" % (D, T, "each" if shape == 0 else T if shape in (2, 3, 4) else "each" if False else T),
      upd([(v + 1) * 2 for v in foc]) if shape in (0, 2, 3, 4) else twice(shape, d, xs, t, upd, foc))


def twice(shape, d, xs, t, upd, foc):
    # filtered: the second pass selects by the values the first pass wrote
    def one(seq, f):
        return [f(v) if v > t else v for v in seq]
    ys = one(one(xs, lambda v: v + 1), lambda v: v * 2)
    if shape == 1:
        return ys
    if shape == 5:
        return dict(zip(d, ys))
    o = copy.deepcopy(d)
    for i, v in enumerate(ys):
        o["x"][i]["y"] = v
    return o


LOOKUP = [("{x: 1, y: 2}.{ :let z: x + y }", {"z": 3}), ("{x: 1}.{ :let y: x + 10 }.y", 11), ("{x: 1}.{ :let y: x + 10 }.(y)", 11),
          ("{x: 1}.(({ :let y: x + 10 }.(y + 100)))", 111), ("{ :let x: 1 x: x + 1 }.x", 2), ("{ :for x: [1, 2, 3], y: [x, x * 10] }.(y)", [1, 10, 2, 20, 3, 30]),
          ("{ :for x: [1, \"two\", 3], n: [x] filter(number?) }.(n * 10)", [10, 30]), ("for.sequence[[1, 2], [3, 4]]", [[1, 3], [1, 4], [2, 3], [2, 4]]),
          ("{ :for x: [1, 2], _: [7, 8] }", [{"x": 1}, {"x": 1}, {"x": 2}, {"x": 2}]), ("for.filter-m(-> [true, false], [1, 2])", [[1, 2], [1], [2], []])]


def main():
    ctx = Ctx("C14", rule="distinct evaluated monadic terms, law instances and lens programs")
    n = ctx.scale(500, 9000)
    cases = [Case(e, w, kind="documented") for e, w in LOOKUP]
    for i in range(n):
        r = ctx.sub(i)
        monad_cases(ctx, r, cases)
        monad_cases(ctx, r, cases)
        if i % 4 == 0:
            law_cases(r, cases)
        if i % 2 == 0:
            lens_cases(r, cases)
            trav_cases(r, cases)
    run_cases(ctx, cases, HEADER, per=60, order=False)
    return ctx.finish(min_distinct=500)
