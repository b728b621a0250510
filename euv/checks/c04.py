"""C04: a collection at any point changes nothing."""
import math
from ..core import *
from ..progs import corpus

# (program, files); @a @b @c are replaced by random sizes
T = [
    ("r: range(0, @a) map(_ * 3) filter((_ % 7) ; (< 4)) foldl(+, 0)", None),
    ("go(n): if(n = 0, 0, 1 + go(n - 1))\nr: go(@a)", None),
    ("go(n, acc): if(n = 0, acc, go(n - 1, cons(n, acc)))\nr: go(@a, []) reverse take(5)\ns: go(@a, []) count", None),
    ("fib(n): if(n < 2, n, fib(n - 1) + fib(n - 2))\nr: [fib(12), fib(9)]", None),
    ("l: range(0, @a)\nr: l reverse map(inc) reverse\ns: l drop(3) take(9)\nt: l foldl(+, 0)", None),
    ("b: range(0, @b) map({ f(i): [sym(\"k{i}\"), i * i] }.f) block\nr: b values foldl(+, 0)\ns: b lookup(:k7)\nt: b.k3 + b.k11\nu: b map-values(inc) lookup(:k9)", None),
    ("b: range(0, @b) map({ f(i): [sym(\"k{i}\"), {n: i s: \"v{i}\" l: [i, i + 1]}] }.f) block\nr: b\ns: range(0, 40) map({ f(i): b lookup(sym(\"k{i}\")) }.f) map(.n) foldl(+, 0)" if False else
     "b: range(0, @b) map({ f(i): [sym(\"k{i}\"), {n: i s: \"v{i}\" l: [i, i + 1]}] }.f) block\nr: b\ns: range(0, 20) map({ f(i): (b lookup(sym(\"k{i}\"))).n }.f) foldl(+, 0)", None),
    ("step(b, i): b {n: b.n + i last: i}\nr: range(0, @b) foldl(step, {n: 0 z: \"kept\"})", None),
    ("step(b, i): b merge(block([[sym(\"x{i}\"), i]]))\nr: range(0, @b) foldl(step, {})", None),
    ("s: range(0, @a) map(_ % 37) set.from-list\nr: s set.size\nt: s set.to-list\nu: range(0, @b) foldl(flip(set.add), set.from-list([])) set.size" if False else
     "s: range(0, @a) map(_ % 37) set.from-list\nr: s set.size\nt: s set.to-list\nu: set.union(s, range(30, 60) set.from-list) set.size", None),
    ("words: range(0, @b) map({ f(i): \"w{i}\" }.f)\ns: words set.from-list\nr: s set.size\nt: words map({ f(w): s set.contains?(w) }.f) all-true?", None),
    ("v: vec.of(range(0, @a))\nr: range(0, @b) map({ f(i): vec.nth(i, v) }.f) foldl(+, 0)\ns: v vec.slice(5, @b) vec.to-list reverse head", None),
    ("a: arr.fill([6, 7], 1.5)\nstep(x, i): arr.set([i % 6, i % 7], i, x)\nr: range(0, @b) foldl(step, a) arr.to-list\ns: arr.add(a, a) arr.to-list" if False else
     "a: arr.fill([6, 7], 1.5)\nr: range(0, 20) foldl({ f(x, i): arr.add(x, a) }.f, a)\ns: a", None),
    ("r: range(0, @b) map({ f(i): \"item {i}: {i:%05d}\" }.f)\ns: r str.join-on(\",\")\nt: s str.letters count\nu: s str.split-on(\",\") count", None),
    ("step(s, i): \"{s}{i}-\"\nr: range(0, @b) foldl(step, \"\")\nt: r str.to-upper\nu: r str.matches-of(\"[0-9]5\") count", None),
    ("big: range(0, @b) map({ f(i): \"line number {i} of a long text\" }.f) str.join-on(\"\\n\")\nr: big str.letters count\ns: (big str.base64-encode str.base64-decode) = big\nt: big str.sha256", None),
    ("r: range(0, @b) map({ f(i): i str.of str.match-with(\"([0-9])([0-9]*)\") }.f)\ns: r map(count) foldl(+, 0)", None),
    ("l: range(0, @b) map({ f(i): (i * 7919) % 1009 }.f)\nr: l sort-nums\ns: l map(str.of) sort-strs\nt: l qsort(>)", None),
    ("l: range(0, @b) map({ f(i): {k: sym(\"g{i}\") n: i % 5} }.f)\nr: l group-by({ f(b): sym(\"n{}\") }.f)" if False else
     "l: range(0, @b) map({ f(i): {n: i % 5 j: i} }.f)\nr: l group-by({ f(b): sym(b.n str.of) }.f) map-values(count)", None),
    ("r: range(0, @b) map({ f(i): t\"2024-01-01T00:00:00Z\" cal.fields }.f) map({ f(d): d.y }.f) foldl(+, 0)\ns: range(0, 30) map({ f(i): cal.parse(\"2024-02-{i:%02d}\") }.f) count", None),
    ("s: random.stream(@c)\nr: random.shuffle(range(0, @b), s) value\nt: random.sample(5, range(0, @b), s) value" if False else
     "m: { :random l: random.shuffle(range(0, @b)) n: random.int(1000) f: random.float }.([l, n, f])\nr: m(random.stream(@c)).value", None),
    ("r: range(0, @b) map({ f(i): (i // {note: \"n{i}\" l: [i]}) }.f) map({ f(x): head((meta(x)).l) + x }.f) foldl(+, 0)", None),
    ("r: range(0, @b) map({ f(i): render-as(:json, {a: i b: [i, \"x{i}\"]}) }.f) map({ f(s): (parse-as(:json, s)).a }.f) foldl(+, 0)", None),
    ("d: parse-as(:json, render-as(:json, range(0, @b) map({ f(i): {id: i name: \"n{i}\" tags: [\"a\", \"b\"]} }.f)))\nr: d map({ f(x): x.id }.f) foldl(+, 0)\ns: d nth(3)", None),
    ("compose-all(fs): foldl(compose, identity, fs)\nr: compose-all(range(0, @b) map({ f(i): + i }.f))(1)", None),
    ("` :suppress\nfs: range(0, @b) map({ f(i): { gg(x, y): x * i + y }.gg }.f)\nr: fs map({ h(k): k(2, 1) }.h) foldl(+, 0)", None),
    ("ev(n): if(n = 0, true, od(n - 1))\nod(n): if(n = 0, false, ev(n - 1))\nr: ev(@a)", None),
    ("` :suppress\nst: iterate({ f(p): [second(p), first(p) + second(p)] }.f, [0, 1])\nr: st nth(30) first\ns: st take(10)", None),
    ("` :suppress\nprimes: { sieve(l): cons(head(l), sieve(l tail filter({ f(p, x): x % p != 0 }.f(head(l))))) }.sieve(ints-from(2))\nr: primes take(25)", None),
    ("tree(n): if(n = 0, {leaf: 1}, {l: tree(n - 1) r: tree(n - 1)})\nsize(t): lookup-or(:leaf, 0, t) + if(t has(:l), size(t.l) + size(t.r), 0)\nr: size(tree(7))\ns: tree(3)", None),
    ("a: {p: {q: [1, {z: 2}] r: {}}}\nr: range(0, @b) foldl({ f(x, i): deep-merge(x, {p: {r: block([[sym(\"k{i}\"), i]])}}) }.f, a)\ns: deep-find(:z, r)", None),
    ("d: { import: \"d.json\" }\nr: d\n" if False else "{ import: \"d=d.json\" }\nr: d.rows map({ f(x): x.v }.f) foldl(+, 0)\ns: d.rows filter({ f(x): x.n str.ends-with?(\"7\") }.f)", "json"),
    ("{ import: \"s=jsonl-stream@s.jsonl\" }\nr: s map({ f(x): x.v }.f) foldl(+, 0)\nt: s take(3)\nu: s drop(20) head", "jsonl"),
    ("{ import: \"c=c.csv\" }\nr: c map({ f(x): x.a num }.f) foldl(+, 0)\ns: c reverse head", "csv"),
    ("xs: range(0, @b)\nr: xs map({ f(x): xs filter(= x) head }.f) foldl(+, 0)", None),
    ("r: range(0, @b) map({ f(i): [i, i * 2, [i]] }.f) mapcat(identity) filter(number?) foldl(+, 0)", None),
    ("r: zip(range(0, @a), range(0, @a) reverse) map({ f[a, b]: a * b }.f) foldl(+, 0)\ns: window(3, 1, range(0, @b)) map(foldl(+, 0)) foldl(+, 0)", None),
    ("es: range(0, @b) map({ f(i): [i, (i * 3 + 1) % @b] }.f)\nr: graph.connected-components(@b, es)" if False else
     "b: range(0, @b) map({ f(i): [sym(\"k{i}\"), i] }.f) block\nr: b elements map(key) count\ns: (b keys) map(str.of) str.join-on(\"\")\nt: b filter-items(by-value(> 5)) merge-all count" if False else
     "b: range(0, @b) map({ f(i): [sym(\"k{i}\"), i] }.f) block\nr: b elements map(key) count\ns: (b keys) map(str.of) str.join-on(\"\")\nt: b map-keys(str.of ; { f(s): sym(\"z{s}\") }.f)", None),
    ("count-down(n): if(n = 0, panic(\"bottom\"), count-down(n - 1))\nr: count-down(@a)", None),
    ("go(n): if(n = 0, [] head, 1 + go(n - 1))\nr: go(@b)", None),
    ("r: range(0, @b) map({ f(i): if(i = 40, \"x\" + 1, i) }.f) foldl(+, 0)", None),
    ("v: vec.of(range(0, 4300))\nr: range(0, @b) map({ f(i): vec.nth(i * 50 % 4300, v) }.f) foldl(+, 0)\ns: v vec.slice(4, 4200) vec.slice(0, 4150) vec.nth(4000)\nt: go(@a)\ngo(n): if(n = 0, 0, 1 + go(n - 1))", None),
    ("a: arr.fill([80, 80], 2)\nr: range(0, 12) foldl({ f(x, i): arr.add(x, a) }.f, a) arr.to-list drop(6390)\nt: go(@a)\ngo(n): if(n = 0, 0, 1 + go(n - 1))", None),
    ("WIDE", None), ("WIDEBLOCK", None), ("WIDELIST", None),
    ("big: range(0, 700) map({ f(i): \"{i}\" }.f) str.join-on(\";\")\nr: big str.split-on(\";\") map(num) foldl(+, 0)", None),
    ("x: { a: range(0, @b) b: a map(inc) c: zip(a, b) d: c map({ f[x, y]: x * y }.f) }\nr: x", None),
    ("m: monad{ bind(a, f): f(a value) { v: 1 } return(a): {value: a v: 0} }\nr: 1" if False else "r: range(0, @b) foldl({ f(acc, i): { :let a: acc b: a + i }.(a + b) % 1000 }.f, 1)", None),
    ("q: range(0, @b) map({ f(i): 90071992547409 * (i + 1) }.f)\nr: q foldl(+, 0)\ns: q map(/ 3)", None),
    ("ls: range(0, @b) map({ f(i): range(0, i % 11) }.f)\nr: ls concat count\ns: ls map(reverse) nth(10)\nt: ls filter(nil?) count", None),
    ("deep(n): if(n = 0, {}, {k: deep(n - 1) n: n})\nr: deep(60)\ns: render-as(:yaml, deep(20))\nt: deep(30) deep-find(:n)" if False else "deep(n): if(n = 0, {}, {k: deep(n - 1) m: n})\nr: deep(60)\ns: render-as(:yaml, deep(20))", None),
    ("r: range(0, @b) map({ f(i): [sym(\"a{i}\"), :b, \"c{i}\" sym] }.f) mapcat(identity) discriminate(= :b) map(count)", None),
    ("lk(b, i): b lookup-or(sym(\"k{i}\"), 0 - 1)\nb: range(0, 40) map({ f(i): [sym(\"k{i * 2}\"), i] }.f) block\nr: range(0, @b) map(lk(b)) foldl(+, 0)" if False else
     "b: range(0, 40) map({ f(i): [sym(\"k{i}\"), [i]] }.f) block\nr: range(0, @b) map({ f(i): b lookup-or(sym(\"k{i}\"), [0 - 1]) head }.f) foldl(+, 0)", None),
    ("s: \"a-b-c-d\"\nr: range(0, @b) map({ f(i): \"{s}{i}\" str.split-on(\"-\") str.join-on(\"+\") str.replace(\"b\", \"<{i}>\") }.f) drop(@b - 3)" if False else
     "s: \"a-b-c-d\"\nr: range(0, @b) map({ f(i): \"{s}{i}\" str.split-on(\"-\") str.join-on(\"+\") }.f) drop(@b - 3)", None),
]
import csv as _csv
import io as _io


def fill(r, t):
    src, kind = t
    w = r.choice([700, 1500, 5000])
    if src == "WIDE":        # a frame of many bindings, larger than a heap block
        src = "\n".join("k%d: %s" % (i, "k%d + %d" % (i - r.randint(1, min(i, 9)), i) if i % 7 else "%d" % i) for i in range(w)) + "\nr: [k5, k%d, k%d]\n" % (w // 2, w - 1)
    elif src == "WIDEBLOCK":
        src = "b: { %s }\nr: b values count\ns: b.k7 + b.k%d\nt: b lookup(:k3)\nu: (b { k7: 4 }).k7\n" % ("\n".join("k%d: [%d, inc(%d)] foldl(+, 0)" % (i, i, i) for i in range(w // 2)), w // 2 - 1)
    elif src == "WIDELIST":
        src = "l: [%s]\nr: l foldl(+, 0)\ns: l reverse head\nt: l map(inc) nth(%d)\n" % (", ".join("inc(%d)" % i for i in range(w // 2)), w // 3)
    # sizes: a for linear work, b for heavier bodies
    src = src.replace("@a", str(r.choice([60, 150, 300, 400] if r.random() < .95 else [1200]))).replace("@b", str(r.choice([45, 60, 90]))).replace("@c", str(r.randint(1, 99)))
    n = r.choice([40, 120, 300])
    rows = [{"v": i * 3, "n": "name %d" % i, "t": {"x": [i, None, "é%d" % i]}} for i in range(n)]
    f = {}
    if kind == "json":
        f["d.json"] = json.dumps({"rows": rows})
    elif kind == "jsonl":
        f["s.jsonl"] = "".join(json.dumps(x) + "\n" for x in rows)
    elif kind == "csv":
        f["c.csv"] = "a,b\n" + "".join("%d,x%d\n" % (i, i) for i in range(n))
    return src, f


def stress(r, ticks):
    """A collection schedule: how often, evacuating, poisoning, verifying."""
    want = math.exp(r.uniform(math.log(15), math.log(500)))        # collections aimed at
    env = {"EUV_GC_TICKS": str(max(1, int(ticks / want) + r.randint(0, 3)))}
    if r.random() < .6:
        env["EU_GC_STRESS"] = "1"
    if r.random() < .3:
        env["EU_GC_POISON"] = "1"
    elif r.random() < .3 and want < 300:
        env["EU_GC_VERIFY"] = r.choice(["1", "2"])
    if r.random() < .25:
        env["EU_PREDECODE"] = "0"
    return env


def one(c, src, files, args, r, runs, what):
    base = ["--suppress-type-warnings", "--seed", "7"] + args
    d = c.dir()
    st = os.path.join(d, "st.json")
    ref = c.eu_src(src, base + ["--statistics-file", st], files=files, timeout=30)
    try:
        j = json.load(open(st))
        ticks, n0 = j["ticks"] if "ticks" in j else j["machine_ticks"], j["collections_count"]
        if n0:
            c.cov("reference runs that collected", 1)
        c.cov("machine steps of reference runs", ticks)
    except (OSError, ValueError, KeyError):
        ticks = 20000
    if os.environ.get("C04_DEBUG") and ref.rc:
        print("\n#",src[:150], ref.errtext[:150])
    shutil.rmtree(d, ignore_errors=True)
    if ref.timeout:
        c.cov("skipped: long without collections")
        return
    if crashed(ref) and b"stack" not in ref.err:
        c.cov("crash without collections (judged by C24)")
    for k in range(runs):
        env = stress(r, ticks)
        if k == 0 and r.random() < .4:
            env = {}                       # the shipped cadence, with a limit that makes it collect
        opt = ["--heap-limit-mib", str(r.choice([1, 1, 1, 2, 4]) if not env else r.choice([1, 1, 64]))]
        d = c.dir()
        st = os.path.join(d, "st.json")
        err = os.path.join(d, "err")

        def go(env, limit):
            return c.eu_src(src, base + opt + ["--statistics-file", st], files=files, env=env, timeout=limit)
        x = go(env, 15)
        while x.timeout and int(env.get("EUV_GC_TICKS", "0")) and int(env["EUV_GC_TICKS"]) < 400:
            c.cov("schedule too dense, retried")
            env = {"EUV_GC_TICKS": str(max(200, int(env["EUV_GC_TICKS"]) * 8)), "EU_GC_STRESS": env.get("EU_GC_STRESS", "0")}
            x = go(env, 25)
        if x.timeout:
            c.unsure("timeout: %s %r" % (src[:200], env))
            continue
        try:
            j = json.load(open(st))
            n = j["collections_count"]
            c.cov("large objects allocated", j.get("lobs_allocated", 0))
        except (OSError, ValueError, KeyError):
            n = None
        shutil.rmtree(d, ignore_errors=True)
        if n:
            c.cov("collections", n)
            c.cov("runs with collections")
            b = "evacuating" if env.get("EU_GC_STRESS") == "1" else "default policy"
            c.cov("runs: " + b)
            for v in ("EU_GC_POISON", "EU_GC_VERIFY"):
                if v in env:
                    c.cov("runs with %s=%s" % (v, env[v]))
            c.count("%s|%s|%s" % (src, sorted(env.items()), opt))
        elif n == 0 or n is None:
            c.cov("runs without a collection" if n == 0 else "runs that failed before writing statistics")
            if n is None:
                c.count("%s|%s|%s" % (src, sorted(env.items()), opt))
        c.cov(what)
        if os.environ.get("C04_DEBUG") and x.wall > 5:
            print("SLOW %.1f" % x.wall, src[:200], env, n)
        if x.rc != ref.rc or x.out != ref.out:
            e = x.errtext
            if len(e) > 4000:
                e = "\n".join(l for l in e.splitlines() if "HOLE WARNING" not in l)[-4000:]
            c.violate("%s: a run with collections differs (status %s against %s)" % (what, x.rc, ref.rc) if x.rc != ref.rc else "%s: output differs under collections" % what,
                      "collections: %s\nuncollected:\n%s\n\ncollected:\nrc=%s\n%s\n%s" % (n, ref.brief(), x.rc, x.text[-1500:], e[-2500:]),
                      dict({"main.eu": src}, **files), args=base + opt, env=env)
            return


def main():
    c = Ctx("C04", rule="distinct (program, collection schedule) pairs in which a run with collections was compared with an uncollected run")
    c.assumptions += ["the cfg euv hook EUV_GC_TICKS=n polls for a collection every n machine steps and collects at every poll; without it the shipped cadence is used with a small --heap-limit-mib"]
    r = c.sub("t")
    jobs = []
    for k in range(4 if c.quick else 60):
        for t in T:
            src, files = fill(r, t)
            jobs.append((src, files, ["-j"], random.Random(r.random()), 2 if c.quick else 4, "template"))
    r.shuffle(jobs)

    def run(j):
        if c.left(230, 480) and len(c.violations) < 12:
            one(c, *j)
    c.pmap(run, jobs)
    specs = [(100, dict(depth=5, budget=60)), (100, dict(depth=6)), (30, dict(depth=8, budget=400))] * (1 if c.quick else 4)
    for ps in corpus(c, "main", specs):
        def go(ip):
            i, p = ip
            one(c, p.src, {}, ["-j"] + p.args(), random.Random("%s/%d" % (p.key, i)), 2 if c.quick else 4, "generated program")
        c.pmap(go, enumerate(ps))
        if not c.left(300, 780) or len(c.violations) >= 12:
            break
    for j in jobs[:6]:
        c.sample(j[0])
    return c.finish(200)
