"""C02: what is not needed is never evaluated; what is needed is evaluated once."""
import collections, re
from ..batch import *
from ..core import *
from ..progs import corpus

VARIANTS = CONFIGS + [("no-dce", ["--no-dce"], {}), ("no-demand", ["--suppress-demand-analysis"], {}),
                      ("no-demand-source", ["--suppress-demand-analysis", "--source-prelude"], {})]
LINE = re.compile(r"^\u25b6 ([a-z]+\d+):", re.M)

# -- expressions in which U is not needed (value given) ------------------------
UNNEEDED = [
    ("const(1, U)", 1), ("if(true, 1, U)", 1), ("if(false, U, 2)", 2), ("true then(1, U)", 1), ("false then(U, 2)", 2),
    ("false && U", False), ("true || U", True), ("and(false, U)", False), ("or(true, U)", True),
    ("cond[false => U, true => 3, U => 4, 5]", 3), ("cond[false => U, 6]", 6),
    ("head([1, U])", 1), ("[1, U] head", 1), ("cons(1, U) head", 1), ("count([U, U])", 2), ("tail([U, 2]) head", 2),
    ("[U, 2, U] second", 2), ("[U, 7] nth(1)", 7), ("[U, 8] !! 1", 8), ("nil?([U])", False), ("list?([U])", True),
    ("head-or(U, [1])", 1), ("tail-or(U, [1]) nil?", True), ("snoc(U, [1]) head", 1), ("zip([], U) nil?", True),
    ("take(0, U) nil?", True), ("map(U, []) nil?", True), ("map2(U, [], U) nil?", True), ("filter(U, []) nil?", True),
    ("foldl(U, 1, [])", 1), ("foldr(U, 1, [])", 1), ("zip-with(U, [], U) nil?", True), ("mapcat(U, []) nil?", True),
    ("take-while(U, []) nil?", True), ("drop-while(U, []) nil?", True), ("[U, U] map(const(4))", [4, 4]),
    ("[U, U, 9] last", 9), ("[U, 3] drop(1) head", 3), ("[3, U] take(1) head", 3), ("[U, U] reverse count", 2),
    ("([1] ++ [U]) head", 1), ("([U] ++ [5]) count", 2), ("foldr(const(identity), 4, [U, U])", 4),
    ("compose(const(1), U, U)", 1), ("flip(const, U, 2)", 2), ("identity([U]) count", 1),
    ("when(const(false), U, 2)", 2), ("when(const(true), const(2), U)", 2), ("{a: 1} lookup-or(:a, U)", 1),
    ("lookup-or(:a, U, {a: 1})", 1), ("{zz: U, aa: 1}.aa", 1), ("{zz: U} block?", True), ("{zz: U, yy: 4}.(yy + 1)", 5),
    ("{aa: U, bb: 2} lookup(:bb)", 2), ("({aa: U} {aa: 3}).aa", 3), ("({aa: U} {bb: 3}).bb", 3), ("{aa: U, bb: 1} keys", ["aa", "bb"]),
    ("{aa: U, bb: 1} has(:aa)", True), ("{aa: U} elements count", 1), ("{aa: U, bb: 2} elements second value", 2),
    ("{aa: U} elements head key", "aa"), ("({aa: U, bb: 3} merge({cc: U})).bb", 3), ("{aa: U} map-values(const(2))", {"aa": 2}),
    ("({aa: U} map-keys(const(:bb)) keys)", ["bb"]), ("{aa: U, bb: 5} values second", 5), ("{aa: 1, bb: U} alter-value(:bb, 2)", {"aa": 1, "bb": 2}),
    ("{aa: U} update-value(:aa, const(3))", {"aa": 3}), ("{aa: U, bb: 1} without(:aa)", {"bb": 1}) if False else ("{aa: U, bb: 1} filter-items(by-key((= :bb))) head value", 1),
    ("iterate(U, 1) head", 1), ("repeat(3) take(2)", [3, 3]), ("(U + 1) const(7)", 7), ("[U + 1, 2] second", 2),
    ("{f(x): 3 r: f(U)}.r", 3), ("{f(x, y): y r: f(U, 4)}.r", 4), ("{f(x, y): x r: f(5)(U)}.r", 5), ("{f[x, y]: y r: f([U, 6])}.r", 6),
    ("{f{x y}: y r: f({x: U, y: 7})}.r", 7), ("{f(x): {g: x h: 2}.h r: f(U)}.r", 2), ("{f(n, x): if(n = 0, 8, f(n - 1, U)) r: f(3, U)}.r", 8),
    ("{f(n, x): if(n = 0, 9, f(n - 1, x)) r: f(3, U)}.r", 9), ("{f(n, x): if(n = 99, x, n) r: f(3, U)}.r", 3),
    ("{f(p, x): if(p, x + 1, 0) r: f(false, U)}.r", 0), ("{g(k): k(U) r: g(const(3))}.r", 3), ("{(l ~~> r): l r: 4 ~~> U}.r", 4),
    ("{f(x): [x, 1] r: f(U) second}.r", 1), ("{f(x): {v: x w: 1} r: f(U).w}.r", 1), ("{f(x): x + 1 r: [f(U)] count}.r", 1),
    ("{f(x): x + 1 g: f(U) r: 2}.r", 2), ("{a: U b: a + 1 c: [b, 3] r: c second}.r", 3), ("(1 // {note: U}) + 1", 2), ("meta(1 // {note: U, k: 4}).k", 4),
    ("(const(5) ∘ const(U))(1)" if False else "(const(U) ; const(5))(1)", 5), ("[1, 2] map(const(6) ∘ (+ U)) head" if False else "[1, 2] map((+ U) ; const(6)) head", 6),
    ('{ m: const(1, U) r: "{m}" }.r', "1"), ("[U, 1] ∧ true" if False else "([1, U] head) = 1", True), ("{ q: U }.{ 3 }" if False else "{ q: U m: 3 }.(m)", 3),
    ("{ q: U m: 3 }.[m, 1]", [3, 1]), ("{ q: U m: 3 }.\"{m}\"", "3"), ("{ a: { b: U c: 3 } }.a.c", 3), ("[[U], [1]] second head", 1),
    ("sort-by(U, U, []) nil?", True), ("sort-by-num(U, []) nil?", True), ("group-consecutive-by(U, []) nil?", True), ("discriminate(U, []) count", 2),
    ("all(U, [])", True), ("any(U, [])", False), ("[true, U] any(identity)", True), ("[false, U] all(identity)", False), ("any-true?([true, U])", True), ("all-true?([false, U])", False),
    ("window(2, 1, []) nil?", True), ("over-sliding-pairs(U, []) nil?", True), ("cross(U, [], []) nil?", True), ("io.return(U) const(2)", 2),
    ("nil?([[U]])", False), ("({ :tag a: U } block?)" if False else "block?({ a: U })", True), ("pairs({a: U}) count" if False else "elements({a: U}) count", 1),
    ("merge({a: U}, {b: 1}).b", 1), ("merge-all([{a: U}, {b: 2}]).b", 2), ("block([[:a, U], [:b, 4]]).b", 4), ("zip([U, 2], [3, U]) count", 2),
    ("split-at(1, [U, 3]) second head", 3), ("interleave([1, U], [2]) second" if False else "concat([[1], [U]]) head", 1), ("max-of([1, 2])" if False else "identity(1)", 1),
]
# ways to put U in place: {e} is the expression with U replaced by the name u
CARRIERS = [
    "%(E)s", "{ u: %(U)s r: %(e)s }.r", "{ fq(u): %(e)s r: fq(%(U)s) }.r", "{ bq: {kq: %(U)s} u: bq.kq r: %(e)s }.r",
    "{ lq: [%(U)s, 1] u: lq head r: %(e)s }.r", "{ fq(n, u): if(n = 0, %(e)s, fq(n - 1, u)) r: fq(2, %(U)s) }.r",
    "{ fq(gq, u): gq(u) gq(u): %(e)s r: fq(gq, %(U)s) }.r", "{ fq[n, u]: %(e)s r: fq([1, %(U)s]) }.r", "{ v: %(U)s u: v r: %(e)s }.r",
    "{ fq(v): { u: v r: %(e)s }.r r: fq(%(U)s) }.r", "{ fq(m, u): %(e)s gq: fq(1) r: gq(%(U)s) }.r", "{ v: { u: %(U)s } r: v.(%(e)s) }.r" if False else "{ fq{u}: %(e)s r: fq({u: %(U)s}) }.r",
]
USUB = re.compile(r"\bU\b")

# -- uses of a thing X that evaluate it exactly once whatever the sharing route -----
SHARED = [
    ("{ a: X r: a + a }.r", 2), ("{ a: X l: [a] r: head(l) + head(l) }.r", 2), ("{ a: X b: a r: b + b }.r", 2), ("{ f(x): x + x r: f(X) }.r", 2),
    ("{ f(x): [x] g(l): head(l) + head(l) r: g(f(X)) }.r", 2), ("{ f(x): {k: x} g(l): l.k + l.k r: g(f(X)) }.r", 2),
    ("{ f(x): const(x) g(h): h(1) + h(2) r: g(f(X)) }.r", 2), ("{ f(x, y): x + y g(h): h(1) + h(2) r: g(f(X)) }.r", 5),
    ("{ a: X f(y): a + y r: [1, 2] map(f) foldl(+, 0) }.r", 5), ("{ a: X r: if(true, [a], []) s: head(r) + head(r) }.s", 2),
    ("{ f(x): cons(x, []) g(l): head(l) + head(l) r: g(f(X)) }.r", 2), ("{ f(x): {m: x}.m g(a): a + a r: g(f(X)) }.r", 2),
    ("{ f(x): {y: x}.([y]) g(l): head(l) + head(l) r: g(f(X)) }.r", 2), ("{ p: [X, 2] r: first(p) + first(p) }.r", 2),
    ("{ a: X f: (+ a) r: f(1) + f(2) }.r", 5), ("{ a: X b: {k: a} r: b.k + b.k }.r", 2), ("{ a: X b: {k: a} c: b{j: 1} r: c.k + c.k }.r", 2),
    ("{ t: [X, 1] f[a, b]: a + a + b r: f(t) }.r", 3), ("{ x: X y: x // {m: x} r: y + y }.r", 2), ("{ f(x): x // {m: 1} g(a): a + a r: g(f(X)) }.r", 2),
    ("{ f(x): if(true, x, 0) g(a): a + a r: g(f(X)) }.r", 2), ("{ mk(x): { go(n): if(n = 0, x, x + go(n - 1)) }.go(3) r: mk(X) }.r", 4),
    ("{ mk(x): { get: x two: x + 1 } b: mk(X) r: b.get + b.two }.r", 3), ("{ mk(x): { get: x } b: mk(X) r: b.get + b.get }.r", 2),
    ("{ l: [X] m: l map(+ 1) r: (m head) + (m head) }.r", 4), ("{ l: [X, 2] r: (l foldl(+, 0)) + (l foldl(+, 0)) }.r", 6),
    ("{ l: [X] r: (l ++ l) foldl(+, 0) }.r", 2), ("{ l: repeat(X) r: l take(3) foldl(+, 0) }.r", 3), ("{ l: cons(X, l) r: l take(3) foldl(+, 0) }.r", 3),
    ("{ b: {k: X} c: b {j: 2} r: b.k + c.k + b.k }.r", 3), ("{ b: {k: X} r: (b lookup(:k)) + (b lookup(:k)) }.r", 2), ("{ b: {k: X} r: (b values head) + (b values head) + b.k }.r", 3),
    ("{ b: {k: X} m: b map-values(+ 1) r: m.k + m.k }.r", 4), ("{ b: {k: X} r: (b elements head value) + (b elements head value) }.r", 2),
    ("{ f{k}: k + k r: f({k: X}) }.r", 2), ("{ f[h : t]: h + (t head) r: f(cons(X, [4])) }.r", 5), ("{ f(x): { g(y): x + y }.g h: f(X) r: h(1) + h(2) }.r", 5),
    ("{ f(n, x): if(n = 0, x + x, f(n - 1, x)) r: f(3, X) }.r", 2), ("{ f(n, x): if(n = 0, 0, x + f(n - 1, x)) r: f(3, X) }.r", 3),
    ("{ k(x): const(x) j: k(X) r: [1, 2, 3] map(j) foldl(+, 0) }.r", 3), ("{ a: { b: X } c: a.b r: a.b + c }.r", 2), ("{ a: X b: \"{a}{a}\" r: b }.r", "11"),
    ("{ a: X r: [a, a, a] }.r", [1, 1, 1]), ("{ a: X r: {p: a, q: a} }.r", {"p": 1, "q": 1}), ("{ f: compose(+ 1, const(X)) r: 3 }.r", 3) if False else ("{ z: [2] zip([X]) r: (z head first) + (z head first) }.r", 2),
    ("{ a: [X, X] r: 1 }.r", 1) if False else ("{ l: [3, X] s: l sort-nums r: (s head) + (s head) }.r", 2), ("{ l: [X, 2] f: l filter(> 0) r: (f head) + (l head) }.r", 2),
    ("{ l: [X, 2] s: l drop(0) r: (s head) + (l head) }.r", 2), ("{ l: [X, 2] s: l reverse r: (s second) + (l head) }.r", 2), ("{ l: [X, 2] s: split-at(1, l) r: (s first head) + (l head) }.r", 2),
    ("{ a: X r: a max(a) min(a) }.r", 1), ("{ a: X r: if(a = 1, a, 0) }.r", 1), ("{ a: X r: cond[a = 5 => 0, a = 1 => a, a] }.r", 1), ("{ a: X r: (a = 1) && (a < 2) }.r", True),
    ("{ c: {a: X b: a + a d: b + a}  r: c.d + c.b }.r", 5), ("{ o: {p: {q: X}} r: o.p.q + o.(p.q) }.r", 2), ("{ (l <*> r): l + l + r r: X <*> 3 }.r", 5),
    ("{ a: X ap(f): f(a) r: ap(+ 1) + ap(+ 2) }.r", 5), ("{ a: X f: a + _ r: f(1) + f(2) }.r", 5) if False else ("{ a: X r: [1, 2] map(a + _) foldl(+, 0) }.r", 5),
    ("{ a: X r: [[1, 2], [3, 4]] map(second ; (+ a)) foldl(+, 0) }.r", 8), ("{ st: iterate(+ 1, X) r: (st nth(0)) + (st nth(2)) }.r", 4), ("{ a: X s: {k: a} deep-merge({j: a}) r: s.k + s.j }.r", 2),
    ("{ a: X m: meta(1 // {n: a}) r: m.n + m.n }.r", 2), ("{ v: vec.of([X, 2]) r: (v vec.nth(0)) + (v vec.nth(0)) }.r", 2.0), ("{ s: set.from-list([X, 2]) r: (s set.contains?(1)) && (s set.contains?(2)) }.r", True),
    ("{ a: X x: a //=> 1 r: x + x }.r", 2), ("{ a: X r: let-in(a) let-in(v): v + v }.r", 2) if False else ("{ a: X v: a b: v c: b r: c + a + v }.r", 3),
    ("{ fib: {go(n): if(n < 2, n, go(n - 1) + go(n - 2))}.go a: X r: fib(a + 3) + fib(a + 2) }.r", 5), ("{ b: block([[:k, X]]) r: b.k + b.k }.r", 2), ("{ b: merge-all([{k: X}, {j: 1}]) r: b.k + b.k }.r", 2),
    ("{ b: {k: X} update-value(:k, + 1) r: b.k + b.k }.r", 4), ("{ b: {k: X} c: b alter-value(:j, 2) r: c.k + b.k }.r", 2), ("{ l: [1, 2] map(const(0)) a: X r: l foldl(const, a) }.r", 1),
]
XCARRY = ["%(S)s", "{ xq: %(X)s r: %(s)s }.r", "{ fq(xq): %(s)s r: fq(%(X)s) }.r", "{ bq: {kq: %(X)s} r: bq.(kq) xq: bq.kq s: %(s)s }.s",
          "{ lq: [%(X)s] xq: lq head r: %(s)s }.r", "{ fq(n, xq): if(n = 0, %(s)s, fq(n - 1, xq)) r: fq(2, %(X)s) }.r", "{ fq[xq, y]: %(s)s r: fq([%(X)s, 1]) }.r",
          "{ iq(z): z xq: iq(%(X)s) r: %(s)s }.r", "{ fq(v): {xq: v r: %(s)s}.r r: fq(%(X)s) }.r"]
XSUB = re.compile(r"\bX\b")


def tables(c, cfgs):
    """Batches of table cases; a unit whose dead site fires or loops fails as a whole, so it is bisected."""
    r = c.sub("tables")
    cases = []
    dead = ['panic("needless")', "forever-and-ever(1)", "dbg({label: \"u@\"}, 1)", "[] head", "\"s\" - 1", "{}.missing" if False else "nothing-here(0)"]
    pre = "forever-and-ever(n): forever-and-ever(n + 1)\nnothing-here(n): {} lookup(:zap)\n"
    for i, (e, want) in enumerate(UNNEEDED):
        picks = CARRIERS if not c.quick else CARRIERS[:3] + r.sample(CARRIERS[3:], 5)
        for k, t in enumerate(picks):
            if "U" not in e:
                continue
            u = dead[(i + k) % len(dead)]
            cases.append((t % dict(E=USUB.sub(lambda m: u, e), e=USUB.sub("u", e), U=u), want, 0, "unneeded"))
    for i, (e, want) in enumerate(SHARED):
        if "X" not in e:
            continue
        picks = XCARRY if not c.quick else XCARRY[:3] + r.sample(XCARRY[3:], 4)
        for k, t in enumerate(picks):
            x = 'dbg({label: "x@"}, %s)' % ["0 + 1", "2 - 1", "[1, 2] head", "identity(1)", "if(true, 1, 2)"][(i + k) % 5]
            cases.append((t % dict(S=XSUB.sub(lambda m: x, e), s=XSUB.sub("xq", e), X=x), want, 1, "shared"))
    r.shuffle(cases)
    cases = [(e.replace("@", str(i)), w, n, k, i) for i, (e, w, n, k) in enumerate(cases)]

    def go(group, cfg):
        if len(c.violations) >= 20:
            return
        src = pre + "\n".join("c%d: %s" % (g[4], g[0]) for g in group) + "\n"
        a = ["-j", "--suppress-type-warnings"] + cfg[1]
        r = c.eu_src(src, a, env=cfg[2], timeout=10 if len(group) == 1 else 40)
        got = None
        if not r.timeout and r.rc == 0:
            try:
                got = jload(r.out)
            except ValueError:
                pass
        if got is None:
            if len(group) > 1:
                m = len(group) // 2
                go(group[:m], cfg)
                go(group[m:], cfg)
                return
            g = group[0]
            c.count(g[0])
            c.violate("%s: `%s` %s" % (g[3], g[0], "does not end" if r.timeout else "fails"), "config %s, expected %r\n%s" % (cfg[0], g[1], r.brief()),
                      {"main.eu": src}, args=a, env=cfg[2])
            return
        ev = collections.Counter(LINE.findall(r.errtext))
        for e, want, n, kind, i in group:
            c.count(e)
            c.cov(kind)
            if not same(got.get("c%d" % i), want, False):
                c.violate("%s: `%s` gave %s, expected %r" % (kind, e, json.dumps(got.get("c%d" % i)), want), "config %s\n%s" % (cfg[0], r.brief()), {"main.eu": pre + "c%d: %s\n" % (i, e)}, args=a, env=cfg[2])
            seen = ev.get("u%d" % i, 0) + ev.get("x%d" % i, 0)
            if seen != n:
                c.violate("%s: `%s` is evaluated %d times" % (kind, e, seen), "config %s, expected %d\n%s" % (cfg[0], n, r.errtext[-500:]), {"main.eu": pre + "c%d: %s\n" % (i, e)}, args=a, env=cfg[2])
            c.cov("table evaluations traced", seen)

    jobs = []
    for j, cfg in enumerate(cfgs):
        cs = cases if not c.quick or j < 1 else [x for i, x in enumerate(cases) if i % len(cfgs) == j]
        jobs += [(cs[i:i + 40], cfg) for i in range(0, len(cs), 40)]
    c.pmap(lambda j: go(*j), jobs)


def judge(c, p, i):
    name, args, env = VARIANTS[i % len(VARIANTS)]
    a = ["-j", "--suppress-type-warnings"] + args + p.args()
    r = c.eu_src(p.src, a, env=env, timeout=40)
    c.count(p.src)
    c.cov("config " + name)
    c.cov("sites that must not fire", p.dead)
    files = {"main.eu": p.src}
    if r.timeout:
        r = c.eu_src(p.src, a, env=env, timeout=90)
        if r.timeout:
            return c.violate("no answer: an endless computation that is not needed is run", "expected %s\n%s" % (json.dumps(p.expected), r.brief()), files, args=a, env=env)
    if r.rc != 0:
        return c.violate("a program fails: something not needed is evaluated", "expected %s\n%s" % (json.dumps(p.expected), r.brief()), files, args=a, env=env)
    try:
        got = jload(r.out)
    except ValueError as e:
        return c.violate("output is not JSON", "%s\n%s" % (e, r.brief()), files, args=a, env=env)
    if not same(got, p.expected, False):
        return c.violate("a program evaluates to something else", "expected %s\ngot %s" % (json.dumps(p.expected), json.dumps(got)), files, args=a, env=env)
    ev = collections.Counter(LINE.findall(r.errtext))
    want = collections.Counter({k: n for k, n in p.events.items() if n})
    c.cov("traces observed", sum(ev.values()))
    if ev != want:
        d = {k: "%d times, model %d" % (ev[k], want[k]) for k in set(ev) | set(want) if ev[k] != want[k]}
        c.violate("evaluations differ from call by need: %s" % list(d.items())[:3], "%r\n%s" % (d, r.brief()), files, args=a, env=env)


def main():
    c = Ctx("C02", rule="distinct programs with traced, failing and endless sites whose number of evaluations the model gives")
    c.assumptions += ["an evaluation is observed by the trace line dbg writes; a site inside a function body is counted once per call that needs it"]
    tables(c, [v for v in VARIANTS if v[0] != "blob-bytes"] if c.quick else VARIANTS)
    specs = []
    for _ in range(1 if c.quick else 6):
        specs += [(1200, dict(depth=4, budget=20)), (1000, dict(depth=5, budget=60)), (500, dict(depth=6)), (100, dict(depth=8, budget=400))]
    k = 0
    for ps in corpus(c, "main", specs):
        c.pmap(lambda ip: judge(c, ip[1], ip[0] + k), enumerate(ps))
        k += 1 + len(ps)
        if ps:
            c.sample(ps[0].src)
        if not c.left(170, 780) or len(c.violations) >= 20:
            break
    return c.finish(500)
