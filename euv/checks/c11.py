"""C11: sets, vecs, arrays and graph functions match their models."""
from ..batch import *
from ..val import *
from .. import num as N

HEADER = """
c11sq(x): x * x
c11ci(c, x): (c foldl(+, 0)) * 10 + x
c11acc(a, x): a * 3 + x
c11nth(v, i): vec.nth(i, v)
"""
NAMES = ["alpha", "zulu", "mike", "bravo", "kilo", "zed", "ab", "b", "Zebra", "x-1", "omega", "charlie"]


def prim(r):
    k = r.random()
    if k < .3:
        return r.randint(-5, 12)
    if k < .4:
        return r.choice([2**53, 2**53 + 1, 2**53 + 2, -2**53 - 1, 2**63 - 1, 2**63, 2**64 - 1, -2**63, 1e19, 9007199254740992.0, 0.5, -0.5, 1e-9, 3.0, 2.0])
    if k < .55:
        return r.choice([.25, 1.5, 2.0, -3.5, 1e10, float(r.randint(-4, 4))]) or 0.0
    if k < .8:
        return r.choice(NAMES + ["", "é", "日", "a b", "10", "9", "😀", "\uffff"])
    return Sym(r.choice(NAMES))


def pk(v):
    """Canonical identity and sort key: numbers by value, then strings, then symbols by name."""
    if isinstance(v, Sym):
        return (2, 0, v.name().encode())
    if isinstance(v, str):
        return (1, 0, v.encode())
    return (0, v, b"")


def ncmp(a, b):
    """JSON equality with numbers by exact value."""
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(map(ncmp, a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(ncmp(a[k], b[k]) for k in a)
    return a == b


class Set_:
    def __init__(self, items=()):
        self.d = {}
        for v in items:
            self.d.setdefault(pk(v), v)

    def copy(self):
        s = Set_()
        s.d = dict(self.d)
        return s

    def sorted(self):
        return [self.d[k] for k in sorted(self.d)]


def numdedupe(l):
    return l


def prod(s):
    p = 1
    for x in s:
        p *= x
    return p


def coords(shape):
    out = [[]]
    for n in shape:
        out = [c + [i] for c in out for i in range(n)]
    return out


class Arr:
    def __init__(self, shape, flat):
        self.shape, self.flat = list(shape), [float(x) for x in flat]

    def off(self, c):
        o = 0
        for n, i in zip(self.shape, c):
            o = o * n + i
        return o

    def ok(self, c):
        return len(c) == len(self.shape) and all(0 <= i < n for i, n in zip(c, self.shape))

    def get(self, c):
        return self.flat[self.off(c)]

    def nested(self):
        if not self.shape:
            return self.flat[0]

        def go(sh, fl):
            if len(sh) == 1:
                return list(fl)
            k = prod(sh[1:])
            return [go(sh[1:], fl[i * k:(i + 1) * k]) for i in range(sh[0])]
        return go(self.shape, self.flat)

    def transpose(self):
        sh = self.shape[::-1]
        return Arr(sh, [self.get(c[::-1]) for c in coords(sh)])

    def slice(self, ax, i):
        sh = self.shape[:ax] + self.shape[ax + 1:]
        return Arr(sh, [self.get(c[:ax] + [i] + c[ax:]) for c in coords(sh)])


def main():
    ctx = Ctx("C11", rule="histories of set, vec and array operations in which every intermediate version is observed at the end, and graph calls on random edge lists; distinct by expression text")
    r = ctx.sub("g")
    cases = []

    def add(e, w, kind):
        cases.append(Case(e, w, kind=kind))
    sp = lambda v: lz(v, r, .3)

    def set_history():
        n = r.randint(1, 12)
        steps, vals = ["v0: ∅"], [Set_()]
        pool = [prim(r) for _ in range(r.randint(1, 8))]
        e = lambda: r.choice(pool) if r.random() < .8 else prim(r)
        obs, wobs = [], []
        for i in range(1, n + 1):
            k = r.randrange(8)
            a = r.randrange(len(vals))
            b = r.randrange(len(vals))
            s = vals[a].copy()
            if k <= 1:
                x = e()
                t = r.choice(["v%d set.add(%s)" % (a, sp(x)), "set.add(%s, v%d)" % (sp(x), a)])
                s.d.setdefault(pk(x), x)
            elif k == 2:
                x = e()
                t = "v%d set.remove(%s)" % (a, sp(x))
                s.d.pop(pk(x), None)
            elif k == 3:
                xs = [e() for _ in range(r.randint(0, 6))]
                t = "set.from-list([%s])" % ", ".join(sp(x) for x in xs)
                s = Set_(xs)
            elif k == 4:
                t = "set.union(v%d, v%d)" % (a, b)
                s.d = {**vals[b].d, **s.d}
            elif k == 5:
                t = "set.intersect(v%d, v%d)" % (a, b)
                s.d = {q: v for q, v in s.d.items() if q in vals[b].d}
            elif k == 6:
                t = "v%d set.diff(v%d)" % (a, b)
                s.d = {q: v for q, v in s.d.items() if q not in vals[b].d}
            else:
                t = "set.from-list(set.to-list(v%d))" % a
            steps.append("v%d: %s" % (i, t))
            vals.append(s)
            x = e()
            has = pk(x) in s.d
            obs.append(r.choice(["v%d set.contains?(%s)", "(%s ∈ v%d)"][:1]) % (i, sp(x)))
            wobs.append(has)
            obs.append("(%s ∈ v%d)" % (sp(x), i))
            wobs.append(has)
            obs.append("(%s ∉ v%d)" % (sp(x), i))
            wobs.append(not has)
            if r.random() < .5:
                j = r.randrange(len(vals))
                obs.append("(v%d = v%d)" % (i, j))
                wobs.append(set(vals[j].d) == set(s.d))
        r0 = ["[%s]" % ", ".join(["v%d set.to-list" % i, "v%d set.size" % i, "v%d set.empty?" % i, "v%d" % i]) for i in range(n + 1)]
        w0 = [[to_json(v.sorted()), len(v.d), not v.d, to_json(v.sorted())] for v in vals]
        # Which of two equal numbers (1 and 1.0) is kept is not observable through ncmp.
        add("{%s  out11: [[%s], [%s]]}.out11" % ("  ".join(steps), ", ".join(r0), ", ".join(obs)), [w0, wobs], "set history")

    def vec_case():
        xs = [prim(r) for _ in range(r.choice([0, 1, 2, 5, 9, 40 if r.random() < .1 else 3]))]
        n = len(xs)
        V = "vec.of([%s])" % ", ".join(sp(x) for x in xs)
        a, b = r.randint(0, n + 2), r.randint(0, n + 2)
        w = {"l": xs, "n": n, "d": xs, "s": xs[a:b] if a <= b else []}
        add("{v1: %s  v2: vec.slice(%s, %s, v1)  out11: {l: vec.to-list(v1), n: vec.len(v1), d: v1, s: vec.to-list(v2), sn: vec.len(v2), e: v1 = vec.of(vec.to-list(v1)), all: range(0, vec.len(v1)) map(c11nth(v1)) }}.out11" % (
            V, sp(a), sp(b)), to_json({**w, "sn": len(w["s"]), "e": True, "all": xs}), "vec")
        if n:
            i = r.randrange(n)
            add(r.choice(["vec.nth(%s, %s)" % (sp(i), V), "%s vec.nth(%s)" % (V, sp(i))]), to_json(xs[i]), "vec.nth")
        if r.random() < .05:
            add("vec.nth(%s, %s)" % (sp(r.choice([n, n + 1, -1, -n - 1, n + 100])), V), Err(), "vec.nth out of range")
        j = [x for x in xs]
        if j:
            i = r.randrange(n)
            j[i] = "changed"
            add("%s = vec.of(%s)" % (V, to_eu(j)), False, "vec unequal")

    def shape(maxn=24):
        while True:
            s = [r.randint(1, 4) for _ in range(r.choice([1, 1, 2, 2, 3, 4]))]
            if prod(s) <= maxn:
                return s

    def anum():
        return r.choice([r.randint(-9, 9), r.randint(-9, 9), .5, -2.25, 1e6, 0])

    def arr_text(a):
        ints = [int(x) if x == int(x) else x for x in a.flat]
        return "arr.from-flat([%s], [%s])" % (", ".join(sp(x) for x in a.shape), ", ".join(sp(x) for x in ints))

    def arr_history():
        sh = shape()
        a = Arr(sh, [anum() for _ in range(prod(sh))])
        steps, vals = ["a0: " + arr_text(a)], [a]
        obs, wobs = [], []
        for i in range(1, r.randint(2, 7)):
            j = r.randrange(len(vals))
            s = vals[j]
            k = r.randrange(10)
            big = max([abs(x) for x in s.flat] + [0]) > 1e60
            if k == 0:
                c = r.choice(coords(s.shape))
                v = anum()
                t = r.choice(["a%d arr.set([%s], %s)" % (j, ", ".join(sp(x) for x in c), sp(v)), "arr.set([%s], %s, a%d)" % (", ".join(sp(x) for x in c), sp(v), j)])
                nx = Arr(s.shape, s.flat)
                nx.flat[s.off(c)] = float(v)
            elif k == 1:
                t, nx = "arr.transpose(a%d)" % j, s.transpose()
            elif k == 2:
                fac = [x for x in range(1, len(s.flat) + 1) if len(s.flat) % x == 0]
                f = r.choice(fac)
                ns = r.choice([[len(s.flat)], [f, len(s.flat) // f], [1, len(s.flat)], [len(s.flat) // f, 1, f]])
                t, nx = "a%d arr.reshape([%s])" % (j, ", ".join(sp(x) for x in ns)), Arr(ns, s.flat)
            elif k == 3:
                if len(s.shape) < 2:
                    continue
                ax = r.randrange(len(s.shape))
                ix = r.randrange(s.shape[ax])
                t, nx = "a%d arr.slice(%s, %s)" % (j, sp(ax), sp(ix)), s.slice(ax, ix)
            elif k in (4, 5):
                ops = [("arr.add(%s, %s)", lambda x, y: x + y), ("arr.sub(%s, %s)", lambda x, y: x - y), ("arr.mul(%s, %s)", lambda x, y: x * y),
                       ("(%s + %s)", lambda x, y: x + y), ("(%s - %s)", lambda x, y: x - y), ("(%s * %s)", lambda x, y: x * y),
                       ("arr.div(%s, %s)", lambda x, y: x / y), ("(%s / %s)", lambda x, y: x / y)]
                if big:
                    continue
                o, f = r.choice(ops)
                mates = [m for m in range(len(vals)) if vals[m].shape == s.shape]
                if k == 4:
                    m = r.choice(mates)
                    if "div" in o or "/" in o:
                        if any(y == 0 for y in vals[m].flat):
                            continue
                    t, nx = o % ("a%d" % j, "a%d" % m), Arr(s.shape, [f(x, y) for x, y in zip(s.flat, vals[m].flat)])
                else:
                    v = anum()
                    if r.random() < .7:
                        if ("div" in o or "/" in o) and v == 0:
                            continue
                        t, nx = o % ("a%d" % j, sp(v)), Arr(s.shape, [f(x, float(v)) for x in s.flat])
                    else:
                        if ("div" in o or "/" in o) and any(y == 0 for y in s.flat):
                            continue
                        t, nx = o % (sp(v), "a%d" % j), Arr(s.shape, [f(float(v), x) for x in s.flat])
            elif k == 6:
                if big:
                    continue
                t, nx = "arr.map(c11sq, a%d)" % j, Arr(s.shape, [x * x for x in s.flat])
            elif k == 7:
                t, nx = "arr.map-indexed(c11ci, a%d)" % j, Arr(s.shape, [sum(c) * 10 + x for c, x in zip(coords(s.shape), s.flat)])
            elif k == 8:
                ns = shape(12)
                v = anum()
                if r.random() < .5:
                    t, nx = "arr.fill([%s], %s)" % (", ".join(sp(x) for x in ns), sp(v)), Arr(ns, [v] * prod(ns))
                else:
                    t, nx = "arr.zeros([%s])" % ", ".join(sp(x) for x in ns), Arr(ns, [0] * prod(ns))
            else:
                t, nx = "arr.from-flat(arr.shape(a%d), arr.to-list(a%d))" % (j, j), Arr(s.shape, s.flat)
            if any(x != x or abs(x) > 1e150 for x in nx.flat):
                continue
            steps.append("a%d: %s" % (len(vals), t))
            vals.append(nx)
        for i, v in enumerate(vals):
            c = r.choice(coords(v.shape)) if v.flat else []
            offs = [[r.randint(-2, 2) for _ in v.shape] for _ in range(r.randint(0, 4))]
            nb = [[x + d for x, d in zip(c, o)] for o in offs]
            obs.append("{s: arr.shape(a%d), r: arr.rank(a%d), l: arr.length(a%d), f: arr.to-list(a%d), d: a%d, g: a%d arr.get([%s]), n: a%d arr.neighbours([%s], [%s]), i: arr.indices(a%d), t: arr.fold(c11acc, 1, a%d), q: [arr.array?(a%d), is-array?(a%d)]}" % (
                i, i, i, i, i, i, ", ".join(sp(x) for x in c), i, ", ".join(sp(x) for x in c), ", ".join("[%s]" % ", ".join(sp(x) for x in o) for o in offs), i, i, i, i))
            acc = 1.0
            for x in v.flat:
                acc = acc * 3 + x
            wobs.append({"s": v.shape, "r": len(v.shape), "l": len(v.flat), "f": v.flat, "d": v.nested(), "g": v.get(c),
                         "n": [v.get(q) for q in nb if v.ok(q)], "i": coords(v.shape), "t": acc, "q": [True, True]})
            k = r.randrange(len(vals))
            obs.append("(a%d = a%d)" % (i, k))
            wobs.append(v.shape == vals[k].shape and v.flat == vals[k].flat)
        add("{%s  out11: [%s]}.out11" % ("  ".join(steps), ", ".join(obs)), wobs, "array history")

    def arr_bad():
        sh = shape(12)
        a = Arr(sh, [anum() for _ in range(prod(sh))])
        A = arr_text(a)
        k = r.randrange(7)
        c = r.choice(coords(sh))
        if k == 0:
            c[r.randrange(len(c))] = r.choice([-1, 99])
            bad = [i for i in range(len(c)) if not 0 <= c[i] < sh[i]]
            if bad:
                add("arr.get(%s, %s)" % (to_eu(c), A), Err(), "array refused")
        elif k == 1:
            add("arr.get(%s, %s)" % (to_eu(c + [0]), A), Err(), "array refused")
        elif k == 2:
            c[r.randrange(len(c))] += 7
            add("arr.to-list(arr.set(%s, 1, %s))" % (to_eu(c), A), Err(), "array refused")
        elif k == 3:
            add("arr.from-flat(%s, %s)" % (to_eu(sh), to_eu([1] * (prod(sh) + r.choice([-1, 1, 5])))), Err(), "array refused")
        elif k == 4:
            add("arr.to-list(arr.reshape(%s, %s))" % (to_eu(sh + [2]), A), Err(), "array refused")
        elif k == 5:
            add("arr.to-list(arr.slice(%s, 0, %s))" % (len(sh), A), Err(), "array refused")
        else:
            b = shape(12)
            if b != sh:
                add("arr.to-list(%s + %s)" % (A, arr_text(Arr(b, [1] * prod(b)))), Err(), "array refused")
            add("arr.to-list(arr.div(%s, %s))" % (A, r.choice(["0", "(1 - 1)", "arr.zeros(%s)" % to_eu(sh)])), Err(), "array refused")

    def graph_case():
        n = r.choice([1, 2, 3, 5, 8, 15])
        m = r.randint(0, n * 2)
        es = [[r.randrange(n), r.randrange(n)] for _ in range(m)]
        E = "[%s]" % ", ".join("[%s, %s]" % (sp(i), sp(j)) for i, j in es)
        lab = list(range(n))

        def find(x):
            while lab[x] != x:
                x = lab[x]
            return x
        kr = []
        comp = n
        for x, (i, j) in enumerate(es):
            a, b = find(i), find(j)
            if a != b:
                lab[a] = b
                comp -= 1
                kr += [x, comp]
        root = [find(i) for i in range(n)]

        def part_ok(g):
            return len(g) == n and all(0 <= x < n and (g[i] == g[j]) == (root[i] == root[j]) for i in range(n) for j in range(n) for x in [g[i]]) \
                and all(root[int(g[i])] == root[i] for i in range(n))
        add("graph.union-find(%s, %s)" % (sp(n), E), Pred(part_ok, "labels of components %r" % root), "union-find")
        add("graph.kruskal-edges(%s, %s)" % (sp(n), E), kr, "kruskal")
        dag = r.random() < .6
        if dag:
            perm = list(range(n))
            r.shuffle(perm)
            es = [[i, j] if perm[i] < perm[j] else [j, i] for i, j in es if i != j]
        E = "[%s]" % ", ".join("[%s, %s]" % (sp(i), sp(j)) for i, j in es)
        # nodes on or behind a cycle are left out
        indeg = [0] * n
        for i, j in es:
            indeg[j] += 1
        q = [i for i in range(n) if not indeg[i]]
        seen = []
        while q:
            x = q.pop()
            seen.append(x)
            for i, j in es:
                if i == x:
                    indeg[j] -= 1
                    if not indeg[j]:
                        q.append(j)

        def topo_ok(g):
            if sorted(g) != sorted(seen):
                return False
            pos = {x: i for i, x in enumerate(g)}
            return all(pos[i] < pos[j] for i, j in es if i in pos and j in pos)
        add("graph.topo-sort(%s, %s)" % (sp(n), E), Pred(topo_ok, "a topological order of %r" % sorted(seen)), "topo-sort")

    for _ in range(ctx.scale(350, 2500)):
        set_history()
        vec_case()
        arr_history()
        graph_case()
        if r.random() < .15:
            arr_bad()
    r.shuffle(cases)
    run_cases(ctx, cases, header=HEADER, cmp=ncmp, per=12)
    return ctx.finish(min_distinct=1000)
