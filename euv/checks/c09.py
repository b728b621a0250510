"""C09: list functions agree with their definitions."""
import itertools, functools
from ..batch import *
from ..val import *
from .. import num as N

HEADER = """
c9even?(n): n % 2 = 0
c9neg?(n): n < 0
c9dbl(x): x * 2 + 1
c9sub(a, b): a - b
c9mix(a, b): a * 3 + b
c9pairup(a, b): [a, b]
c9rep(x): [x, x]
c9none(x): []
c9lt(a, b): a < b
c9gt(a, b): b < a
c9tag(n): if(n % 3 = 0, :fizz, if(n < 0, :neg, :other))
"""
PREDS = [("c9even?", lambda n: n % 2 == 0), ("c9neg?", lambda n: n < 0), ("(> 3)", lambda n: n > 3), ("zero?", lambda n: n == 0),
         ("(_ < 10)", lambda n: n < 10), ("pos?", lambda n: n > 0), ("const(true)", lambda n: True), ("const(false)", lambda n: False),
         ("(= 2)", lambda n: n == 2), ("(not ∘ c9even?)", lambda n: n % 2 != 0), ("(c9even? complement)", lambda n: n % 2 != 0)]
FNS = [("c9dbl", lambda x: 2 * x + 1), ("inc", lambda x: x + 1), ("negate", lambda x: -x), ("(_ * 3)", lambda x: 3 * x), ("(10 - _)", lambda x: 10 - x),
       ("identity", lambda x: x), ("const(7)", lambda x: 7), ("abs", abs), ("(c9mix(2))", lambda x: 6 + x), ("(inc ∘ c9dbl)", lambda x: 2 * x + 2)]
BIN = [("c9sub", lambda a, b: a - b), ("c9mix", lambda a, b: a * 3 + b), ("(+)", lambda a, b: a + b), ("max", max), ("min", min),
       ("(_0 - _1)", lambda a, b: a - b), ("(_1 - _0)", lambda a, b: b - a)]
LFN = [("c9rep", lambda x: [x, x]), ("c9none", lambda x: []), ("(x ‖ [])"[:0] or "c9rep", lambda x: [x, x])]


def ints(r, n=None, lo=-9, hi=9):
    n = n if n is not None else r.choice([0, 0, 1, 1, 2, 3, 4, 5, 8, 13])
    return [r.randint(lo, hi) for _ in range(n)]


def anys(r, n=None):
    n = n if n is not None else r.choice([0, 1, 1, 2, 3, 5, 8])
    return [gen(r, 1, sym_ok=True) for _ in range(n)]


def lst(r, xs):
    """The list xs spelt in one of several ways."""
    k = r.random()
    if k < .5:
        return to_eu(xs, r)
    if k < .6:
        return lz(xs, r)
    if k < .68:
        return "map(identity, %s)" % to_eu(xs, r)
    if k < .76:
        i = r.randint(0, len(xs))
        return "(%s ++ %s)" % (to_eu(xs[:i], r), to_eu(xs[i:], r))
    if k < .82 and xs:
        return "cons(%s, %s)" % (to_eu(xs[0], r), to_eu(xs[1:], r))
    if k < .88:
        return "reverse(%s)" % to_eu(xs[::-1], r)
    if k < .93:
        return "take(%d, %s)" % (len(xs), to_eu(xs + [9, 9], r))
    if k < .97:
        return "tail(%s)" % to_eu([0] + xs, r)
    return "(%s // {about: :lists})" % to_eu(xs, r)


def call(r, f, args, l):
    """f(args..., l) written as a call or a pipeline."""
    if r.random() < .5:
        return "%s(%s)" % (f, ", ".join(list(args) + [l]))
    return "%s %s%s" % (l, f, "(%s)" % ", ".join(args) if args else "")


def windows(n, step, l, full):
    out, i = [], 0
    while i < len(l):
        ch = l[i:i + n]
        if full and len(ch) < n:
            break
        out.append(ch)
        i += step
    return out


def groupc(xs, f):
    out = []
    for x in xs:
        if out and veq(f(out[-1][-1]), f(x)):
            out[-1].append(x)
        else:
            out.append([x])
    return out


def foldr(f, i, l):
    for x in reversed(l):
        i = f(x, i)
    return i


def main():
    ctx = Ctx("C09", rule="prelude list functions on random lists (empty, single, long, nested, duplicates) spelt in several ways; distinct by expression text")
    cases = []
    r = ctx.sub("fn")

    def add(expr, want, kind):
        cases.append(Case(expr, to_json(want) if not isinstance(want, (Err, Pred)) else want, kind=kind))
    dups = lambda xs: xs + [r.choice(xs) for _ in range(3)] if xs and r.random() < .5 else xs
    G = {}

    def g(name):
        def d(f):
            G[name] = f
            return f
        return d

    def simple(name, arg, model, dom=None):
        """name(args..., l) over arg lists"""
        def f():
            xs = arg()
            add(call(r, name, [], lst(r, xs)), model(xs), name)
        G[name] = f

    def err1(name):
        add(call(r, name, [], lst(r, [])), Err(), name + " of empty")
    A = lambda: dups(anys(r))
    I = lambda: dups(ints(r))
    simple("nil?", A, lambda x: not x)
    simple("non-nil?", A, lambda x: bool(x))
    simple("count", A, len)
    simple("reverse", A, lambda x: x[::-1])
    simple("sum", I, sum)
    simple("product", lambda: ints(r, r.choice([0, 1, 2, 5]), -4, 4), lambda x: functools.reduce(lambda a, b: a * b, x, 1))
    simple("tails", A, lambda x: [x[i:] for i in range(len(x))])
    simple("concat", lambda: [anys(r) for _ in range(r.choice([0, 1, 2, 4]))], lambda x: sum(x, []))
    simple("uniq", I, lambda x: [k[0] for k in groupc(x, lambda v: v)])
    simple("group-consecutive", A, lambda x: groupc(x, lambda v: v))
    simple("differences", I, lambda x: [b - a for a, b in zip(x, x[1:])])
    simple("unzip", lambda: [[a, b] for a, b in zip(A(), A())], lambda x: [[p[0] for p in x], [p[1] for p in x]])
    simple("all-true?", lambda: [r.random() < .8 for _ in range(r.randint(0, 4))], all)
    simple("any-true?", lambda: [r.random() < .3 for _ in range(r.randint(0, 4))], any)
    simple("coalesce", lambda: [r.choice([None, None, 1, "x", False]) for _ in range(r.randint(0, 5))], lambda x: next((v for v in x if v is not None), None))
    for nm, m in (("head", lambda x: x[0]), ("first", lambda x: x[0]), ("last", lambda x: x[-1]), ("tail", lambda x: x[1:]), ("butlast", lambda x: x[:-1]),
                  ("max-of", None), ("min-of", None), ("second", lambda x: x[1])):
        def f(nm=nm, m=m):
            if m is None:
                xs = ints(r, r.randint(0, 6))
                m = {"max-of": max, "min-of": min}[nm]
            else:
                xs = A()
            try:
                w = m(xs) if not (nm in ("tail", "butlast") and not xs) else Err()
            except (IndexError, ValueError):
                w = Err()
            if isinstance(w, Err) and r.random() < .8:
                return
            add(call(r, nm, [], lst(r, xs)), w, nm)
        G[nm] = f
    for nm in ("head-or", "tail-or", "second-or", "max-of-or", "min-of-or"):
        def f(nm=nm):
            num = nm.startswith("m")
            xs = ints(r, r.randint(0, 4)) if num else anys(r, r.randint(0, 3))
            d = [1] if nm == "tail-or" else r.randint(0, 9)
            w = {"head-or": lambda: xs[0] if xs else d, "tail-or": lambda: xs[1:] if xs else d, "second-or": lambda: xs[1] if len(xs) > 1 else d,
                 "max-of-or": lambda: max(xs) if xs else d, "min-of-or": lambda: min(xs) if xs else d}[nm]()
            add(call(r, nm, [to_eu(d)], lst(r, xs)), w, nm)
        G[nm] = f
    for nm, m in (("take", lambda n, x: x[:n]), ("drop", lambda n, x: x[n:]), ("split-at", lambda n, x: [x[:n], x[n:]]),
                  ("rotate", lambda n, x: x[n % len(x):] + x[:n % len(x)] if x else []),
                  ("partition", lambda n, x: windows(n, n, x, True)), ("partition-all", lambda n, x: windows(n, n, x, False))):
        def f(nm=nm, m=m):
            xs = A()
            n = r.randint(0, len(xs) + 2)
            if nm == "drop":
                n = min(n, len(xs))
            if nm.startswith("part"):
                n = max(1, n)
            add(call(r, nm, [lz(n, r)], lst(r, xs)), m(n, xs), nm)
        G[nm] = f
    for nm in ("window", "window-all"):
        def f(nm=nm):
            xs = I()
            n, s = r.randint(1, 5), r.randint(1, 6)
            add(call(r, nm, [str(n), str(s)], lst(r, xs)), windows(n, s, xs, nm == "window"), nm)
        G[nm] = f
    for nm in ("nth", "!!", "update-nth"):
        def f(nm=nm):
            xs = ints(r, r.randint(0, 6))
            n = r.choice([-1, len(xs), len(xs) + 1]) if r.random() < .1 or not xs else r.randrange(len(xs))
            ok = 0 <= n < len(xs)
            if nm == "update-nth":
                fs, fp = r.choice(FNS)
                add(call(r, nm, [to_eu(n), fs], lst(r, xs)), xs[:n] + [fp(xs[n])] + xs[n + 1:] if ok else Err(), nm)
            elif nm == "!!":
                add("%s !! %s" % (lst(r, xs), "(%s)" % to_eu(n)), xs[n] if ok else Err(), nm)
            else:
                add(call(r, nm, [to_eu(n)], lst(r, xs)), xs[n] if ok else Err(), nm)
        G[nm] = f

    def pm(nm, model):
        def f():
            ps, pf = r.choice(PREDS)
            xs = I()
            add(call(r, nm, [ps], lst(r, xs)), model(pf, xs), nm)
        G[nm] = f
    tw = lambda p, x: list(itertools.takewhile(p, x))
    dw = lambda p, x: list(itertools.dropwhile(p, x))
    neg = lambda p: (lambda v: not p(v))
    pm("filter", lambda p, x: [v for v in x if p(v)])
    pm("remove", lambda p, x: [v for v in x if not p(v)])
    pm("take-while", tw)
    pm("drop-while", dw)
    pm("take-until", lambda p, x: tw(neg(p), x))
    pm("drop-until", lambda p, x: dw(neg(p), x))
    pm("split-after", lambda p, x: [tw(p, x), dw(p, x)])
    pm("split-when", lambda p, x: [tw(neg(p), x), dw(neg(p), x)])
    pm("all", lambda p, x: all(map(p, x)))
    pm("any", lambda p, x: any(map(p, x)))
    pm("discriminate", lambda p, x: [[v for v in x if p(v)], [v for v in x if not p(v)]])

    def spliton(p, x):
        out = [[]]
        for v in x:
            if p(v):
                out.append([])
            else:
                out[-1].append(v)
        return out
    pm("split-on", spliton)

    @g("update-first")
    def _():
        ps, pf = r.choice(PREDS)
        fs, ff = r.choice(FNS)
        xs = I()
        w = list(xs)
        for i, v in enumerate(xs):
            if pf(v):
                w[i] = ff(v)
                break
        add(call(r, "update-first", [ps, fs], lst(r, xs)), w, "update-first")

    def fm(nm, model, sep=None):
        def f():
            fs, ff = r.choice(FNS)
            xs = I()
            add("%s <$> %s" % (fs, lst(r, xs)) if nm == "<$>" else call(r, nm, [fs], lst(r, xs)), model(ff, xs), nm)
        G[nm] = f
    fm("map", lambda f, x: [f(v) for v in x])
    fm("<$>", lambda f, x: [f(v) for v in x])
    fm("group-consecutive-by", lambda f, x: groupc(x, f))

    def nub(f, x):
        seen, out = [], []
        for v in x:
            if f(v) not in seen:
                seen.append(f(v))
                out.append(v)
        return out
    fm("nub-by", nub)

    @g("mapcat")
    def _():
        fs, ff = r.choice(LFN)
        xs = I()
        add(call(r, "mapcat", [fs], lst(r, xs)), sum((ff(v) for v in xs), []), "mapcat")

    @g("group-by")
    def _():
        xs = I()
        d = {}
        for v in xs:
            d.setdefault("fizz" if v % 3 == 0 else "neg" if v < 0 else "other", []).append(v)
        add(call(r, "group-by", ["c9tag"], lst(r, xs)), d, "group-by")
    for nm in ("max-of-by", "min-of-by", "max-map", "min-map"):
        def f(nm=nm):
            fs, ff = r.choice(FNS)
            xs = I()
            if not xs:
                if r.random() < .1:
                    add(call(r, nm, [fs], "[]"), Err(), nm)
                return
            w = {"max-of-by": lambda: max(xs, key=ff), "min-of-by": lambda: min(xs, key=ff),
                 "max-map": lambda: max(map(ff, xs)), "min-map": lambda: min(map(ff, xs))}[nm]()
            add(call(r, nm, [fs], lst(r, xs)), w, nm)
        G[nm] = f
    for nm in ("foldl", "foldr", "scanl", "scanr", "reduce"):
        def f(nm=nm):
            bs, bf = r.choice(BIN)
            xs = ints(r, r.choice([0, 1, 2, 4, 6]))
            i = r.randint(-5, 5)
            if nm == "reduce":
                w = functools.reduce(bf, xs) if xs else Err()
                if not xs and r.random() < .8:
                    return
                add(call(r, nm, [bs], lst(r, xs)), w, nm)
                return
            if nm == "foldl":
                w = functools.reduce(bf, xs, i)
            elif nm == "foldr":
                w = foldr(bf, i, xs)
            elif nm == "scanl":
                w = list(itertools.accumulate(xs, bf, initial=i))
            else:
                w = [foldr(bf, i, xs[k:]) for k in range(len(xs) + 1)]
            add(call(r, nm, [bs, to_eu(i)], lst(r, xs)), w, nm)
        G[nm] = f
    for nm in ("map2", "zip-with", "cross"):
        def f(nm=nm):
            bs, bf = r.choice(BIN)
            a, b = I(), I()
            w = [bf(x, y) for x in a for y in b] if nm == "cross" else [bf(x, y) for x, y in zip(a, b)]
            add("%s(%s, %s, %s)" % (nm, bs, lst(r, a), lst(r, b)), w, nm)
        G[nm] = f

    @g("over-sliding-pairs")
    def _():
        bs, bf = r.choice(BIN)
        a = I()
        add(call(r, "over-sliding-pairs", [bs], lst(r, a)), [bf(x, y) for x, y in zip(a, a[1:])], "over-sliding-pairs")

    def inter(a, b):
        out = []
        for x, y in itertools.zip_longest(a, b, fillvalue=inter):
            out += [v for v in (x, y) if v is not inter]
        return out
    for nm, m in (("append", lambda a, b: a + b), ("prepend", lambda a, b: b + a), ("zip", lambda a, b: [[x, y] for x, y in zip(a, b)]), ("interleave", inter)):
        def f(nm=nm, m=m):
            a, b = A(), A()
            add("%s(%s, %s)" % (nm, lst(r, a), lst(r, b)), m(a, b), nm)
        G[nm] = f

    @g("++")
    def _():
        ls = [A() for _ in range(r.randint(2, 4))]
        add(" ++ ".join(lst(r, x) for x in ls), sum(ls, []), "++")

    @g("cons")
    def _():
        a, x = A(), gen(r, 1)
        k = r.randrange(4)
        if k == 0:
            add("cons(%s, %s)" % (lz(x, r), lst(r, a)), [x] + a, "cons")
        elif k == 1:
            add("%s ‖ %s" % (to_eu(x, r), lst(r, a)), [x] + a, "‖")
        elif k == 2:
            add(call(r, "snoc", [lz(x, r)], lst(r, a)), a + [x], "snoc")
        elif a:
            add("(↑%s)" % to_eu(a, r), a[0], "↑")

    @g("zip-apply")
    def _():
        fs = [r.choice(FNS) for _ in range(r.randint(0, 4))]
        xs = I()
        add("zip-apply([%s], %s)" % (", ".join(f for f, _ in fs), lst(r, xs)), [f[1](x) for f, x in zip(fs, xs)], "zip-apply")

    @g("transpose")
    def _():
        n, m = r.randint(1, 4), r.randint(0, 4)
        rows = [ints(r, m) for _ in range(n)]
        add(call(r, "transpose", [], to_eu(rows, r)), [list(c) for c in zip(*rows)], "transpose")

    @g("infinite")
    def _():
        n, k = r.randint(0, 8), r.randint(-5, 5)
        xs = ints(r, r.randint(1, 3))
        j = r.randrange(8)
        e, w = [("repeat(%s) take(%d)" % (to_eu(k), n), [k] * n), ("iota(%s) take(%d)" % (to_eu(k), n), list(range(k, k + n))),
                ("ints-from(%s) take(%d)" % (to_eu(k), n), list(range(k, k + n))), ("cycle(%s) take(%d)" % (to_eu(xs), n), (xs * 9)[:n]),
                ("iterate(c9dbl, %s) take(%d)" % (to_eu(k), n), [(k + 1) * 2**i - 1 for i in range(n)]),
                ("ℕ map(c9dbl) filter(c9even? complement) take(%d)" % n, [2 * i + 1 for i in range(n)]),
                ("range(%s, %s)" % (to_eu(k), to_eu(k + n)), list(range(k, k + n))),
                ("zip(ℕ, %s)" % to_eu(xs), [[i, x] for i, x in enumerate(xs)])][j]
        add(e, w, e.split("(")[0].split()[0])

    @g("running")
    def _():
        xs = [r.choice([r.randint(-50, 50), round(r.uniform(-9, 9), 3)]) for _ in range(r.randint(0, 8))]
        j = r.randrange(3)
        nm = ["running-max", "running-min", "running-sum"][j]
        w = list(itertools.accumulate(xs, [max, min, lambda a, b: a + b][j]))
        add(call(r, nm, [], lst(r, xs)), Pred(lambda g, w=w: len(g) == len(w) and all(abs(a - b) <= 1e-12 * max(1, abs(b)) for a, b in zip(g, w)), repr(w)), nm)

    @g("qsort")
    def _():
        xs = I()
        if r.random() < .5:
            add(call(r, "qsort", ["c9gt"], lst(r, xs)), sorted(xs, reverse=True), "qsort")
        elif r.random() < .6:
            # keys that collide: equal elements keep their order
            m = r.randint(1, 4)
            xs = [r.randint(0, 30) for _ in range(r.randint(0, 12))]
            f, cmp, rev = r.choice([("sort-by", "(<)", 0), ("sort-by-num", None, 0), ("sort-by", "c9gt", 1)])
            add(call(r, f, ["(%% %d)" % m] + ([cmp] if cmp else []), lst(r, xs)),
                sorted(xs, key=lambda x: (-(x % m) if rev else x % m)), "stable")
        else:
            fs, ff = r.choice(FNS)
            add(call(r, "sort-by", [fs, "(<)"], lst(r, xs)), sorted(xs, key=ff), "sort-by")

    @g("composed")
    def _():
        """Pipelines of several stages."""
        xs = I()
        e, v = lst(r, xs), list(xs)
        for _ in range(r.randint(2, 5)):
            j = r.randrange(9)
            if j == 0:
                s, f = r.choice(FNS); e += " map(%s)" % s; v = [f(x) for x in v]
            elif j == 1:
                s, f = r.choice(PREDS); e += " filter(%s)" % s; v = [x for x in v if f(x)]
            elif j == 2:
                n = r.randint(0, 6); e += " take(%d)" % n; v = v[:n]
            elif j == 3:
                e += " reverse"; v = v[::-1]
            elif j == 4:
                s, f = r.choice(PREDS); e += " drop-while(%s)" % s; v = dw(f, v)
            elif j == 5:
                e += " mapcat(c9rep)"; v = sum(([x, x] for x in v), [])
            elif j == 6:
                y = ints(r, 2); e += " append(%s)" % to_eu(y); v = y + v
            elif j == 7:
                s, f = r.choice(FNS); e += " nub-by(%s)" % s; v = nub(f, v)
            else:
                e += " scanl(c9mix, 1)"; v = list(itertools.accumulate(v, lambda a, b: a * 3 + b, initial=1))
            v = [x for x in v]
            if any(abs(x) > 2**50 for x in v):
                return
        t = r.randrange(4)
        if t == 0:
            e += " count"; v = len(v)
        elif t == 1:
            e += " foldl(c9sub, 0)"; v = functools.reduce(lambda a, b: a - b, v, 0)
        add(e, v, "composed")

    @g("long")
    def _():
        if r.random() > .25:
            return
        n = r.choice([500, 1000, 3000])
        xs = [(i * 7919) % 1009 for i in range(n)]
        src = "(range(0, %d) map(_ * 7919 %% 1009))" % n
        j = r.randrange(9)
        e, w = [("%s sum", sum(xs)), ("%s reverse take(5)", xs[::-1][:5]), ("%s sort-nums take(7)", sorted(xs)[:7]), ("%s count", n),
                ("%s filter(c9even?) count", sum(x % 2 == 0 for x in xs)), ("%s foldr(c9sub, 0)", foldr(lambda a, b: a - b, 0, xs)),
                ("%s last", xs[-1]), ("%s drop(400) head", xs[400]), ("(%s ++ [1]) take-while(>= 0) count", n + 1)][j]
        add(e % src, w, "long " + e.split()[1].split("(")[0])
    per = ctx.scale(40, 400)
    for name in sorted(G):
        for _ in range(per * (4 if name == "composed" else 1)):
            G[name]()
    for nm in ("head", "tail", "first", "last", "second", "max-of", "min-of", "butlast"):
        err1(nm)
    r.shuffle(cases)
    run_cases(ctx, cases, header=HEADER, order=False)
    return ctx.finish(min_distinct=1500)
