"""C12: seeded randomness is reproducible and fair.

Each case is evaluated in four engine configurations and the results compared with each
other (reproducibility), then judged: ranges, permutation and sampling laws, continuation of
the returned stream, uniformity (chi-square at fixed seeds), distinctness of split streams."""
import math
from collections import Counter
from ..batch import *
from ..val import *

HEADER = """
c12n(f, n, s): if(n = 0, [], c12step(f, n, f(s)))
c12step(f, n, r): cons(r.value, c12n(f, n - 1, r.rest))
c12rest(s): random.eval(random.float, s)
c12pair(r): [r.value, c12rest(r.rest)]
c12dice(a, b): { :random
  x: random.int(a)
  y: random.float
  z: random.int(b)
}.[x, y, z]
c12ints(n, k, s): c12n(random.int(n), k, s)
c12vp(r): [r.value vec.to-list, c12rest(r.rest)]
c12sp(r): [r.value set.to-list, c12rest(r.rest)]
"""


def seed(r):
    return r.choice([r.randint(0, 20), r.randint(0, 2**31), -r.randint(1, 2**40), 2**63 - 1, 0, r.getrandbits(62)])


def gen_items(r, n=None):
    n = r.choice([0, 1, 2, 3, 5, 8, 13]) if n is None else n
    k = r.random()
    if k < .4:
        return list(range(n))
    if k < .7:
        return [r.choice(["a", "b", "c", "日", ""]) for _ in range(n)]
    return [r.choice([1, 2, "x", Sym("x"), True, None, [1, 2], {"k": 1}]) for _ in range(n)]


def multiset(x):
    return Counter(json.dumps(v, sort_keys=True) for v in x)


def sublist(a, b):
    return not (multiset(a) - multiset(b))


class P:
    """One probe: an expression and a judge of its value."""

    def __init__(self, kind, expr, ok, want):
        self.kind, self.expr, self.ok, self.want = kind, expr, ok, want


def isf(x):
    return isinstance(x, float) and 0 <= x < 1 or x == 0 and not isinstance(x, bool)


def probes(r):
    s = seed(r)
    st = "random.stream(%s)" % N_(s)
    out = []

    def p(kind, expr, ok, want):
        out.append(P(kind, expr, ok, want))
    n = r.choice([1, 2, 3, 6, 7, 10, 100, 2**20, 2**31, 2**53 + 1, 2**63, 2**64 - 1])
    k = r.choice([1, 3, 8, 20])
    p("float", "c12n(random.float, %d, %s)" % (k, st), lambda v: len(v) == k and all(map(isf, v)) and len(set(v)) == k, "%d distinct floats in [0,1)" % k)
    p("int", "c12n(random.int(%d), %d, %s)" % (n, k, st), lambda v: len(v) == k and all(isinstance(x, int) and 0 <= x < n for x in v)
      and (n < 2**31 or k < 3 or len(set(v)) > 1), "%d integers in [0,%d)" % (k, n))
    p("int of computed bound", "c12n(random.int(%s), %d, %s)" % (lz(n, r, 1.0), k, st), lambda v: all(0 <= x < n for x in v), "integers below %d" % n)
    p("as-list continues", "{a: %s random.as-list take(%d), b: c12n(random.float, %d, %s)}" % (st, k, k, st), lambda v: v["a"] == v["b"], "as-list = repeated float")
    p("random-stream alias", "{a: random-stream(%s) take(3), b: %s random.as-list take(3)}" % (N_(s), st), lambda v: v["a"] == v["b"], "equal")
    xs = gen_items(r)
    e, j = lz(xs, r), to_json(xs)
    p("shuffle", "c12pair(random.shuffle(%s, %s))" % (e, st), lambda v: multiset(v[0]) == multiset(j) and isf(v[1]), "a permutation of %r" % (j,))
    m = r.randint(0, len(xs))
    p("sample", "c12pair(random.sample(%d, %s, %s))" % (m, e, st), lambda v: len(v[0]) == m and sublist(v[0], j) and isf(v[1]), "%d members of %r" % (m, j))
    if xs:
        p("choice", "c12pair(random.choice(%s, %s))" % (e, st), lambda v: v[0] in j and isf(v[1]), "a member")
        p("choice continues", "c12n(random.choice(range(0, 2000)), 8, %s)" % st, lambda v: len(set(v)) > 4, "mostly distinct draws")
    ps = [r.choice([1, 2, 3, "a", "b", Sym("k"), 2.5, "日"]) for _ in range(r.randint(0, 9))]
    pj = [float(x) if isinstance(x, (int, float)) else x for x in to_json(ps)]
    fl = lambda v: [float(x) if isinstance(x, (int, float)) and not isinstance(x, bool) else x for x in v]
    p("vec.shuffle", "c12vp(vec.shuffle(vec.of(%s), %s))" % (lz(ps, r), st),
      lambda v: multiset(fl(v[0])) == multiset(pj) and isf(v[1]), "a permutation")
    m2 = r.randint(0, len(ps) + 2)
    p("vec.sample", "c12vp(vec.sample(%d, vec.of(%s), %s))" % (m2, lz(ps, r), st),
      lambda v: len(v[0]) == min(m2, len(ps)) and sublist(fl(v[0]), pj), "%d members" % min(m2, len(ps)))
    dis = []
    for x in pj:
        if x not in dis:
            dis.append(x)
    symclash = len({(type(x).__name__, str(x)) for x in ps}) < len(set(map(repr, ps)))
    if not symclash:
        nd = len({repr(float(x)) if isinstance(x, (int, float)) else repr(x) for x in ps})
        m3 = r.randint(0, nd + 2)
        p("set.sample", "c12sp(set.sample(%d, set.from-list(%s), %s))" % (m3, lz(ps, r), st),
          lambda v: len(v[0]) == min(m3, nd) and sublist(fl(v[0]), pj), "%d distinct members" % min(m3, nd))
    # every operation's rest continues: drawing the same operation again must not repeat
    big = "range(0, 40)"
    for op in ("random.float", "random.int(1000000007)", "random.shuffle(%s)" % big, "random.sample(7, %s)" % big):
        p("rest continues", "c12n(%s, 4, %s)" % (op, st), lambda v: len({json.dumps(x) for x in v}) == 4, "four different results of " + op)
    for op, mk, used in (("vec.shuffle", "vec.shuffle(vec.of(range(0, 40)))", 39), ("vec.sample", "vec.sample(9, vec.of(range(0, 40)))", 9),
                         ("set.sample", "set.sample(9, set.from-list(range(0, 40)))", 9)):
        tl = "vec.to-list" if op[0] == "v" else "set.to-list"
        p(op + " continues", "c12n(%s, 4, %s) map(%s)" % (mk, st, tl), lambda v: len({json.dumps(x) for x in v}) == 4, "four different results")
        p(op + " rest is fresh", "{r: %s(%s)}.[c12rest(r.rest), %s random.as-list take(60)]" % (mk, st, st), lambda v, used=used: isf(v[0]) and v[0] not in v[1][:used],
          "a float none of the draws used before")
    # split
    p("split", "{q: random.split(%s)}.[q.value random.as-list take(12), q.rest random.as-list take(12), %s random.as-list take(12)]" % (st, st),
      lambda v: len(set(v[0] + v[1])) == 24 and v[0] != v[2] and v[1] != v[2], "two distinct streams, both different from the parent")
    # the monad threads the stream as explicit threading does
    a, b = r.randint(2, 50), r.randint(2, 10**9)
    thread = "{p: random.int(%d, %s) q: random.float(p.rest) t: random.int(%d, q.rest)}.[p.value, q.value, t.value, c12rest(t.rest)]" % (a, st, b)
    mon = "{d: c12dice(%d, %d)(%s)}.[d.value nth(0), d.value nth(1), d.value nth(2), c12rest(d.rest)]" % (a, b, st)
    p("monad block threads", "{a: %s, b: %s}" % (thread, mon), lambda v: v["a"] == v["b"] and 0 <= v["a"][0] < a and 0 <= v["a"][2] < b, "equal")
    seq = "c12pair(random.sequence([random.int(%d), random.float, random.int(%d)], %s))" % (a, b, st)
    p("sequence threads", "{a: %s, b: %s}" % (thread, seq), lambda v: v["a"] == v["b"][0] + [v["b"][1]], "equal")
    mm = "c12pair(random.map-m(random.int, [%d, %d, %d], %s))" % (a, b, a, st)
    ex = "{p: random.int(%d, %s) q: random.int(%d, p.rest) t: random.int(%d, q.rest)}.[[p.value, q.value, t.value], c12rest(t.rest)]" % (a, st, b, a)
    p("map-m threads", "{a: %s, b: %s}" % (mm, ex), lambda v: v["a"] == v["b"], "equal")
    p("run/eval/exec", "{r: random.run(random.int(%d), %s) e: random.eval(random.int(%d), %s) x: random.exec(random.int(%d), %s)}.[r.value = e, c12rest(r.rest) = c12rest(x)]" % (b, st, b, st, b, st),
      lambda v: v == [True, True], "equal")
    s2 = s + r.choice([1, 2, 1000, -1])
    p("other seed", "{a: %s random.as-list take(4), b: random.stream(%s) random.as-list take(4)}" % (st, N_(s2)), lambda v: not set(v["a"]) & set(v["b"]), "different streams")
    return out


def N_(v):
    return str(v) if v >= 0 else "(0 - %d)" % -v


def chi(counts, exp):
    return sum((c - e) ** 2 / e for c, e in zip(counts, exp))


def chi_limit(df):
    """About the 1 - 1e-9 quantile of chi-square (Wilson–Hilferty, z = 6)."""
    return df * (1 - 2 / (9 * df) + 6 * math.sqrt(2 / (9 * df))) ** 3


def main():
    ctx = Ctx("C12", rule="distinct probes (seed, operation, arguments), each evaluated in four engine configurations")
    n = ctx.scale(60, 900)
    jobs = []
    for i in range(n):
        r = ctx.sub("p", i)
        jobs.append((i, probes(r)))

    def judge(i, ps, depth=0):
        src = HEADER + "".join("c%d: %s\n" % (k, p.expr) for k, p in enumerate(ps))
        ref = None
        for cfg in CONFIGS:
            rr = ctx.eu_src(src, ["-j", "--suppress-type-warnings"] + list(cfg[1]), env=cfg[2], timeout=60)
            if rr.timeout or rr.rc != 0:
                if len(ps) > 1:
                    m = len(ps) // 2
                    judge(i, ps[:m]), judge(i, ps[m:])
                elif rr.timeout:
                    ctx.violate("%s: `%s` does not end" % (ps[0].kind, ps[0].expr[:300]), rr.brief(), files={"main.eu": src}, args=list(cfg[1]) + ["-j", "main.eu"])
                else:
                    ctx.violate("%s: `%s` failed: %s" % (ps[0].kind, ps[0].expr[:300], " ".join(rr.errtext.split())[:200]), rr.brief(), files={"main.eu": src}, args=list(cfg[1]) + ["-j", "main.eu"])
                return
            v = jload(rr.out)
            if ref is None:
                ref = v
                for k, p in enumerate(ps):
                    ctx.count(p.expr)
                    ctx.cov(p.kind)
                    try:
                        ok = p.ok(v["c%d" % k])
                    except Exception as e:
                        ok = False
                    if not ok:
                        ctx.violate("%s: `%s` gave %s, expected %s" % (p.kind, p.expr[:250], json.dumps(v["c%d" % k])[:250], p.want), rr.brief(),
                                    files={"main.eu": src}, args=list(cfg[1]) + ["-j", "main.eu"])
            else:
                ctx.count(None)
                for k, p in enumerate(ps):
                    if not same(v["c%d" % k], ref["c%d" % k]):
                        ctx.violate("%s: `%s` differs in configuration %s: %s against %s" % (p.kind, p.expr[:250], cfg[0], json.dumps(v["c%d" % k])[:150], json.dumps(ref["c%d" % k])[:150]),
                                    rr.brief(), files={"main.eu": src}, args=list(cfg[1]) + ["-j", "main.eu"], env=cfg[2])
    for e in jobs[0][1][:6]:
        ctx.sample(e.expr)
    ctx.pmap(lambda j: judge(*j), jobs)

    # refusals
    bad = ["random.int(%s, random.stream(1)).value" % b for b in ("0", "(0 - 3)", "2.5", '"6"')] + ["random.choice([], random.stream(1)).value"]
    run_cases(ctx, [Case(b, Err(), kind="refused") for b in bad], HEADER)

    # --seed and io.random: reproducible, distinct between seeds
    src = "a: io.random random.as-list take(5)\nb: io.RANDOM_SEED\nc: random.shuffle(range(0, 20), io.random).value\nd: random.stream(io.RANDOM_SEED) random.as-list take(5)\n"
    seen = {}

    def cli(s):
        outs = []
        for cfg in CONFIGS:
            rr = ctx.eu_src(src, ["-j", "--seed", str(s)] + list(cfg[1]) if s >= 0 else ["-j", "--seed=%d" % s] + list(cfg[1]), env=cfg[2])
            ctx.count("--seed %d" % s)
            ctx.cov("--seed")
            if rr.rc != 0:
                ctx.violate("--seed %d failed" % s, rr.brief(), files={"main.eu": src})
                return
            outs.append(rr.out)
        if len(set(outs)) != 1:
            ctx.violate("--seed %d gives different results between runs" % s, "\n".join(o.decode() for o in outs), files={"main.eu": src})
        v = jload(outs[0])
        if v["b"] != s or v["a"] != v["d"]:
            ctx.violate("--seed %d: RANDOM_SEED is %r and io.random is not random.stream of it" % (s, v["b"]), outs[0].decode(), files={"main.eu": src})
        with ctx.lock:
            seen[s] = tuple(v["a"])
    ctx.pmap(cli, [0, 1, 2, 42, -1, 2**31, 2**62, 123456789, -987654321][: ctx.scale(7, 9)])
    if len(set(seen.values())) != len(seen):
        ctx.violate("different --seed values give the same stream", repr(seen))

    # uniformity
    draws = ctx.scale(4000, 30000)

    def uniform(job):
        kind, expr, cells, probs, pick = job
        rr = ctx.eu_src(HEADER + "c: %s\n" % expr, ["-j"], timeout=240)
        ctx.count("uniform " + expr)
        ctx.cov("uniformity")
        if rr.timeout or rr.rc != 0:
            ctx.violate("uniformity run failed: " + expr, rr.brief(), files={"main.eu": HEADER + "c: %s\n" % expr}) if not rr.timeout else ctx.unsure("uniform timeout")
            return
        xs = [pick(x) for x in jload(rr.out)["c"]]
        c = Counter(xs)
        tot = len(xs)
        stat = chi([c.get(k, 0) for k in cells], [tot * p for p in probs])
        ctx.cov("draws", tot)
        if set(c) - set(cells) or stat > chi_limit(len(cells) - 1):
            ctx.violate("%s is far from uniform: `%s` chi-square %.1f over %d cells (limit %.1f)" % (kind, expr, stat, len(cells), chi_limit(len(cells) - 1)),
                        repr(c.most_common(30)), files={"main.eu": HEADER + "c: %s\n" % expr})
    r = ctx.sub("u")
    ujobs = []
    for q in range(ctx.scale(2, 6)):
        s = seed(r)
        st = "random.stream(%s)" % N_(s)
        ujobs.append(("float", "%s random.as-list take(%d)" % (st, draws), range(20), [.05] * 20, lambda x: int(x * 20)))
        ujobs.append(("float low digits", "%s random.as-list take(%d)" % (st, draws), range(16), [1 / 16] * 16, lambda x: int(x * 2**40) % 16))
        for n in (2, 6, 10, 16, 37):
            ujobs.append(("int(%d)" % n, "c12ints(%d, %d, %s)" % (n, draws // 4, st), range(n), [1 / n] * n, lambda x: x))
        # position of element 0 / first element after shuffles of 6, from a run of distinct seeds
        m = draws // 10
        base = abs(s) % 10**6
        for nm, e in (("shuffle first", "random.shuffle(range(0, 6), random.stream(k)).value head"),
                      ("shuffle last", "random.shuffle(range(0, 6), random.stream(k)).value last"),
                      ("shuffle pair order", "random.shuffle(range(0, 6), random.stream(k)).value nth(2)"),
                      ("choice", "random.choice(range(0, 6), random.stream(k)).value"),
                      ("sample member", "random.sample(1, range(0, 6), random.stream(k)).value head"),
                      ("vec.shuffle first", "vec.shuffle(vec.of(range(0, 6)), random.stream(k)).value vec.to-list head floor"),
                      ("vec.shuffle last", "vec.shuffle(vec.of(range(0, 6)), random.stream(k)).value vec.to-list last floor"),
                      ("vec.sample second", "vec.sample(2, vec.of(range(0, 6)), random.stream(k)).value vec.to-list last floor"),
                      ("set.sample", "set.sample(1, set.from-list(range(0, 6)), random.stream(k)).value set.to-list head floor"),
                      ("first float", "floor(random.float(random.stream(k)).value * 6)"),
                      ("split value", "floor(random.float(random.split(random.stream(k)).value).value * 6)"),
                      ("split rest", "floor(random.float(random.split(random.stream(k)).rest).value * 6)"),
                      ("second int", "random.int(6, random.int(6, random.stream(k)).rest).value")):
            ujobs.append((nm, "map(c12f, range(%d, %d))\nc12f(k): %s" % (base, base + m, e), range(6), [1 / 6] * 6, int))
    ctx.pmap(uniform, ujobs)
    return ctx.finish(min_distinct=500)
