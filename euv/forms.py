"""Language forms outside euv/prog.py, generated with their values: operator tables with unary operators,
anaphora, sections, block anaphora, pseudo-lambdas, idiot brackets, application spellings, generalised lookup."""
from .batch import *

LIM = 1 << 53


class Skip(Exception):
    pass


def ck(n):
    if isinstance(n, int) and not isinstance(n, bool) and abs(n) >= LIM:
        raise Skip()
    return n


def div(a, b):
    if b == 0:
        raise Skip()
    return a // b


def mod(a, b):
    if b == 0:
        raise Skip()
    return a % b


def power(a, b):
    if b < 0 or b > 6:
        raise Skip()
    return ck(a ** b)


NUM2 = [("+", 75, "l", lambda a, b: ck(a + b)), ("-", 75, "l", lambda a, b: ck(a - b)), ("*", 80, "l", lambda a, b: ck(a * b)),
        ("/", 80, "l", div), ("%", 80, "l", mod), ("^", 85, "r", power)]
CMP2 = [("<", 50, "l", lambda a, b: a < b), (">", 50, "l", lambda a, b: a > b), ("<=", 50, "l", lambda a, b: a <= b), (">=", 50, "l", lambda a, b: a >= b)]
EQ2 = [("=", 40, "l", lambda a, b: a == b), ("!=", 40, "l", lambda a, b: a != b)]
BOOL2 = [("&&", 35, "l", lambda a, b: a and b), ("∧", 35, "l", lambda a, b: a and b), ("||", 30, "l", lambda a, b: a or b), ("∨", 30, "l", lambda a, b: a or b)]


def par(p, need):
    return p[0] if p[1] >= need else "(%s)" % p[0]


def glue(a, b):
    return a + " " + b


class Table:
    """Operators in scope of one unit: the prelude's and freshly declared ones."""

    def __init__(self, r):
        self.r = r
        self.bin, self.un = list(NUM2), []
        decls = []
        syms = r.sample(["⊕", "⊗", "⊖", "⊙", "<<>>", "+-+", "|>", "~~", "%%%", "⋄", "‖‖", "@@", "^^^"], 4)
        used = {}
        for sym in syms[:2]:
            assoc = r.choice("lr")
            prec = r.choice([12, 22, 33, 43, 52, 57, 62, 70, 77, 79, 82, 84, 86, 89]) if r.random() < .7 else None
            if prec is None:
                nm, prec, _ = r.choice([("sum", 75, "l"), ("prod", 80, "l"), ("exp", 85, "r"), ("append", 45, "l"), ("shift", 60, "l"), ("bitwise", 55, "l"), ("cmp", 50, "l")])
                assoc = "r" if nm == "exp" else "l"
                pm = ":" + nm
            else:
                pm = str(prec)
            if used.setdefault(prec, assoc) != assoc:
                continue
            body, f = r.choice([("l * 2 - r", lambda a, b: ck(a * 2 - b)), ("l - r * 3", lambda a, b: ck(a - b * 3)), ("l - r", lambda a, b: ck(a - b)), ("r - l", lambda a, b: ck(b - a))])
            meta = ["associates: :%s" % ("right" if assoc == "r" else "left"), "precedence: " + pm]
            r.shuffle(meta)
            decls.append("` { %s }\n(l %s r): %s" % (" ".join(meta), sym, body))
            self.bin += [(sym, prec, assoc, f)] * 2
        # unary operators
        for sym, kind in zip(syms[2:], r.sample(["pre", "post", "pre", "post"], 2)):
            prec = r.choice([12, 37, 47, 58, 72, 78, 83, 87, 92])
            body, f = r.choice([("x * 10 + 1", lambda a: ck(a * 10 + 1)), ("x - 7", lambda a: ck(a - 7)), ("0 - x", lambda a: -a)])
            decls.append("` { precedence: %d }\n(%s): %s" % (prec, "%s x" % sym if kind == "pre" else "x %s" % sym, body))
            self.un.append((sym, prec, kind, f))
        self.decls = "\n".join(decls)

    def tree(self, d, atoms):
        """(text, prec, fn(env) -> int)"""
        r = self.r
        if d <= 0 or r.random() < .15:
            a = r.choice(atoms)
            return a[0], 100, a[1], False, None
        if self.un and r.random() < .3:
            sym, prec, kind, f = r.choice(self.un)
            x = self.tree(d - 1, atoms)
            # operands binding tighter are bare; the rest is parenthesised
            s = par(x, prec + 1)
            t = glue(sym, s) if kind == "pre" else glue(s, sym)
            return t, prec, (lambda env, f=f, g=x[2]: f(g(env))), True, None
        sym, prec, assoc, f = r.choice(self.bin)
        a, b = self.tree(d - 1, atoms), self.tree(d - 1, atoms)
        la, ra = prec, prec
        # the same precedence is bare only on the side the operator associates to, below an operator of its kind
        sa = par(a, prec if assoc == "l" and (a[4] == "l" or a[1] > prec) else prec + 1)
        sb = par(b, prec if assoc == "r" and (b[4] == "r" or b[1] > prec) else prec + 1)
        # a unary operator is only left bare where it cannot reach over its neighbour
        if a[3] and sa == a[0]:
            sa = "(%s)" % a[0]
        if b[3] and sb == b[0]:
            sb = "(%s)" % b[0]
        return "%s %s %s" % (sa, sym, sb), prec, (lambda env, f=f, g=a[2], h=b[2]: f(g(env), h(env))), False, assoc

    def boolean(self, d, atoms):
        r = self.r
        if d <= 0 or r.random() < .4:
            op = r.choice(CMP2 + EQ2)
            a, b = self.tree(2, atoms), self.tree(2, atoms)
            lo = op[1] + 1
            sa, sb = par(a, lo), par(b, lo)
            if a[3] and sa == a[0]:
                sa = "(%s)" % sa
            if b[3] and sb == b[0]:
                sb = "(%s)" % sb
            return "%s %s %s" % (sa, op[0], sb), op[1], (lambda env, f=op[3], g=a[2], h=b[2]: f(g(env), h(env)))
        if r.random() < .2:
            x = self.boolean(d - 1, atoms)
            return "%s(%s)" % (r.choice("!¬"), x[0]), 88, (lambda env, g=x[2]: not g(env))
        op = r.choice(BOOL2)
        a, b = self.boolean(d - 1, atoms), self.boolean(d - 1, atoms)
        return ("%s %s %s" % (par(a, op[1]), op[0], par(b, op[1] + 1)), op[1], (lambda env, f=op[3], g=a[2], h=b[2]: f(g(env), h(env))))


def lit(n):
    return (str(n) if n >= 0 else "(0 - %d)" % -n, lambda env, n=n: n)


def operator_cases(r, n):
    """units: (header, cases)"""
    out = []
    while len(out) < n:
        t = Table(r)
        names = {k: r.choice([0, 1, 2, 3, 5, 8, 13, 40]) for k in ("aa", "bb", "cc")}
        atoms = [lit(r.choice([0, 1, 2, 3, 4, 7, 9, 11])) for _ in range(3)] + [(k, lambda env, k=k: env[k]) for k in names]
        cs = []
        tries = 0
        while len(cs) < 12 and tries < 80:
            tries += 1
            e = t.boolean(2, atoms) if r.random() < .3 else t.tree(r.randint(1, 4), atoms)
            try:
                v = e[2](names)
            except Skip:
                continue
            cs.append(Case(e[0], v, "operators", key=t.decls + e[0]))
        out.append((t.decls + "\n" + "\n".join("%s: %d" % kv for kv in names.items()) + "\n", cs))
    return out


def nums(r, n):
    return [r.randint(0, 20) for _ in range(n)]


def splits(r, f, args):
    """every spelling of a saturated call"""
    a = list(args)
    k = r.randint(1, len(a))
    groups = []
    i = 0
    while i < len(a):
        j = r.randint(i + 1, len(a))
        groups.append(a[i:j])
        i = j
    how = r.random()
    if how < .45:
        return f + "".join("(%s)" % ", ".join(g) for g in groups)
    if how < .8 and len(a) >= 1:
        # last arguments by pipeline
        head = a[:-1]
        g = f + ("(%s)" % ", ".join(head) if head else "")
        return "%s %s" % (a[-1], g)
    return "{h: %s}.(h%s)" % (f + ("(%s)" % ", ".join(a[:k]) if k < len(a) else ""), "(%s)" % ", ".join(a[k:] if k < len(a) else a))


def anaphora_case(r):
    k = r.random()
    n = r.choice([1, 1, 2, 2, 3])
    xs = nums(r, n)
    sa = [str(x) for x in xs]
    t = Table.__new__(Table)
    t.r, t.bin, t.un = r, [o for o in NUM2 if o[0] in "+-*"], []
    if k < .3:
        # numbered: flat (no parentheses inside), all of them used
        for _ in range(60):
            idx = [r.randrange(n) for _ in range(r.randint(n, n + 2))]
            if set(idx) != set(range(n)):
                continue
            ops = [r.choice("+-*") for _ in idx[1:]]
            if not ops:
                ops, idx = ["+"], idx + [0]
            txt = "_%d" % idx[0] + "".join(" %s _%d" % (o, i) for o, i in zip(ops, idx[1:]))
            val = eval("%d" % xs[idx[0]] + "".join(" %s %d" % (o, xs[i]) for o, i in zip(ops, idx[1:])))
            return Case(splits(r, "(%s)" % txt, sa), val, "numbered anaphora")
    if k < .5:
        # unnumbered: one parameter each, left to right
        m = r.randint(0, 2)
        toks = ["_"] * n + [str(c) for c in nums(r, m)]
        r.shuffle(toks)
        if len(toks) == 1:
            toks.append("1")
        ops = [r.choice("+-*") for _ in toks[1:]]
        it = iter(xs)
        vals = [str(next(it)) if x == "_" else x for x in toks]
        txt = toks[0] + "".join(" %s %s" % p for p in zip(ops, toks[1:]))
        return Case(splits(r, "(%s)" % txt, sa), eval(vals[0] + "".join(" %s %s" % p for p in zip(ops, vals[1:]))), "unnumbered anaphora")
    if k < .6:
        ys = nums(r, r.randint(0, 5))
        a, b = r.randint(1, 5), r.randint(0, 9)
        e = r.choice([("map(_ * %d + %d)" % (a, b), [y * a + b for y in ys]), ("map(_0 * _0 - %d)" % b, [y * y - b for y in ys]),
                      ("filter(_ > %d)" % b, [y for y in ys if y > b]), ("map(%d - _)" % b, [b - y for y in ys]), ("map(- %d)" % b, [y - b for y in ys]),
                      ("map(%d -)" % b, [b - y for y in ys]), ("foldl(_0 * %d + _1, 0)" % a, None)])
        want = e[1]
        if want is None:
            want = 0
            for y in ys:
                want = want * a + y
        return Case("%s %s" % (json.dumps(ys), e[0]), want, "anaphora as argument")
    names = r.sample(["x", "y", "z", "w", "alpha", "k1"], n)
    if k < .75:
        order = list(range(n))
        if r.random() < .5:
            r.shuffle(order)
            holes = ["•%d" % i for i in order]
        else:
            holes = ["•"] * n
        blk = "{%s}" % r.choice([" ", ", "]).join("%s: %s" % (a, h) for a, h in zip(names, holes))
        return Case(splits(r, blk, sa), {a: xs[i] for a, i in zip(names, order)}, "block anaphora")
    if k < .9:
        atoms = [(a, lambda env, a=a: env[a]) for a in names] + [lit(r.randint(0, 9))]
        e = t.tree(2, atoms)
        blk = "{%s}.(%s)" % (" ".join("%s: •" % a for a in names), e[0])
        try:
            return Case(splits(r, "(%s)" % blk, sa), e[2](dict(zip(names, xs))), "pseudo-lambda")
        except Skip:
            return None
    ys = nums(r, 3)
    return Case("[%s] map({ %s: • %s: • } uncurry)" % (", ".join("[%d, %d]" % (y, y + 1) for y in ys), "p", "q"), [{"p": y, "q": y + 1} for y in ys], "block anaphora uncurried")


def function_case(r):
    """parameters of every kind, then every spelling of the call"""
    n = r.randint(1, 4)
    params, args, env = [], [], {}
    cnt = iter(range(100))
    for i in range(n):
        k = r.random()
        if k < .45:
            v = "a%d" % next(cnt)
            x = r.randint(0, 30)
            params.append(v)
            args.append(str(x))
            env[v] = x
        elif k < .65:
            fs = r.sample(["fx", "fy", "fz", "fw"], r.randint(1, 3))
            sh, rn, blk = [], [], {}
            for f in fs:
                x = r.randint(0, 30)
                blk[f] = x
                if r.random() < .5 and f not in env:
                    sh.append(f)
                    env[f] = x
                else:
                    v = "a%d" % next(cnt)
                    rn.append("%s: %s" % (f, v))
                    env[v] = x
            extra = {"other": 99} if r.random() < .4 else {}
            items = list(blk.items()) + list(extra.items())
            r.shuffle(items)
            params.append("{%s}" % " ".join(sh + rn))
            args.append("{%s}" % " ".join("%s: %d" % kv for kv in items))
        elif k < .85:
            m = r.randint(1, 4)
            vs = ["a%d" % next(cnt) for _ in range(m)]
            xs = nums(r, m)
            env.update(zip(vs, xs))
            params.append("[%s]" % ", ".join(vs))
            args.append(json.dumps(xs))
        else:
            m = r.randint(1, 3)
            vs = ["a%d" % next(cnt) for _ in range(m)]
            t = "a%d" % next(cnt)
            xs, tail = nums(r, m), nums(r, r.randint(0, 3))
            env.update(zip(vs, xs))
            env[t] = tail
            params.append("[%s : %s]" % (", ".join(vs), t))
            args.append(json.dumps(xs + tail))
    used = r.sample(list(env), min(len(env), r.randint(1, 4)))
    body = "[%s]" % ", ".join(used)
    want = [env[u] for u in used]
    if n == 1 and params[0][0] in "[{" and r.random() < .5:
        decl, call = "ff%s: %s" % (params[0], body), "ff%s" % args[0]
    else:
        decl = "ff(%s): %s" % (", ".join(params), body)
        if n == 1 and params[0][0] in "[{" and r.random() < .4:
            call = "ff" + args[0]
        else:
            call = splits(r, "ff", args)
    return Case("{%s}.(%s)" % (decl, call), want, "parameters and calls")


def lookup_case(r):
    names = r.sample(["a", "b", "c", "d", "e"], r.randint(1, 4))
    xs = nums(r, len(names))
    blk = "{%s}" % r.choice([" ", ", ", "  "]).join("%s: %d" % p for p in zip(names, xs))
    env = dict(zip(names, xs))
    k = r.random()
    p, q = r.choice(names), r.choice(names)
    if k < .2:
        return Case("%s.(%s * 2 + %s)" % (blk, p, q), env[p] * 2 + env[q], "generalised lookup")
    if k < .35:
        return Case("%s.[%s, %s, 1]" % (blk, p, q), [env[p], env[q], 1], "generalised lookup of a list")
    if k < .5:
        return Case('%s."{%s}-{%s}"' % (blk, p, q), "%d-%d" % (env[p], env[q]), "generalised lookup of a string")
    if k < .65:
        return Case("%s.{n: %s m: %s + 1}" % (blk, p, q), {"n": env[p], "m": env[q] + 1}, "generalised lookup of a block")
    if k < .8:
        # scopes nest, the innermost wins
        x = r.randint(50, 60)
        return Case("{%s: %d o: %s i: %s.(%s + o)}.i" % (p, x, "{v: %s}.v" % p, blk, p), x + env[p], "scopes nest")
    # nested blocks see the names around them
    n = r.randint(1, 4)
    src, val, exp = "v%d + %d" % (n - 1, n), None, None
    decl = ""
    for i in reversed(range(n)):
        inner = "k: [%s]" % ", ".join("v%d" % j for j in range(n)) if i == n - 1 else "s: {%s}" % decl
        decl = "v%d: %s %s" % (i, str(xs[0]) if i == 0 else "v%d + %d" % (i - 1, i), inner)
    vals = [xs[0]]
    for i in range(1, n):
        vals.append(vals[-1] + i)
    want = {"v%d" % (n - 1): vals[-1], "k": vals}
    for i in reversed(range(n - 1)):
        want = {"v%d" % i: vals[i], "s": want}
    return Case("{%s}" % decl, want, "nested scopes")


BR = ["⟦⟧", "⟨⟩", "⟪⟫", "⌈⌉", "⌊⌋", "⦃⦄", "⦇⦈", "⦉⦊", "«»", "【】", "〔〕", "〖〗", "〘〙", "〚〛"]


def bracket_unit(r):
    ds, fns = [], []
    for b in r.sample(BR, 3):
        body, f = r.choice([("xs map(_ * 2)", lambda xs: [x * 2 for x in xs]), ("xs sum" if False else "xs foldl(+, 0)", lambda xs: sum(xs)),
                            ("xs reverse", lambda xs: xs[::-1]), ("xs count", len), ("[xs, xs]", lambda xs: [xs, xs])])
        ds.append("%s xs %s: %s" % (b[0], b[1], body))
        fns.append((b, f))
    cs = []
    for _ in range(8):
        b, f = r.choice(fns)
        items, vals = [], []
        for _ in range(r.randint(1, 4)):
            x, y = r.randint(0, 20), r.randint(0, 9)
            e = r.choice([(str(x), x), ("(%d + %d)" % (x, y), x + y), ("kk", 17)])
            items.append(e[0])
            vals.append(e[1])
        cs.append(Case("%s %s %s" % (b[0], " ".join(items), b[1]), f(vals), "idiot brackets", key=ds[0] + " ".join(items)))
    return "\n".join(ds) + "\nkk: 17\n", cs


def pipeline_case(r):
    """catenation: left to right, the left value is the last argument"""
    x = nums(r, r.randint(0, 6))
    src, v = json.dumps(x), list(x)
    for _ in range(r.randint(1, 5)):
        k = r.randint(0, 9)
        a = r.randint(1, 5)
        st = [("map(+ %d)" % a, lambda v: [e + a for e in v]), ("map(%d - _)" % a, lambda v: [a - e for e in v]), ("filter(< %d)" % (a * 4), lambda v: [e for e in v if e < a * 4]),
              ("reverse", lambda v: v[::-1]), ("take(%d)" % a, lambda v: v[:a]), ("cons(%d)" % a, lambda v: [a] + v), ("(%d :: )" % a if False else "map(_0 * _0)", lambda v: [e * e for e in v]),
              ("(append([%d]))" % a, lambda v: [a] + v), ("++ [%d]" % a, None), ("map({y: •}.(y * %d))" % a, lambda v: [e * a for e in v])][k]
        if st[1] is None:
            src, v = "((%s) ++ [%d])" % (src, a), v + [a]
        else:
            src, v = "%s %s" % (src, st[0]), st[1](v)
    if any(abs(e) > LIM for e in v):
        return None
    return Case(src, v, "pipelines")


def cases(c):
    q = c.scale(1, 8)
    r = c.sub("forms")
    units = operator_cases(r, 40 * q) + [bracket_unit(r) for _ in range(10 * q)]
    cfgs = list(CONFIGS)

    def unit(iu):
        i, (h, cs) = iu
        run_cases(c, cs, header=h, configs=[cfgs[i % 4]], order=False)
    c.pmap(unit, enumerate(units))
    cs = []
    for gen, n in ((anaphora_case, 260), (function_case, 260), (lookup_case, 160), (pipeline_case, 160)):
        for _ in range(n * q):
            x = gen(r)
            if x is not None:
                cs.append(x)
    run_cases(c, cs, order=False)
