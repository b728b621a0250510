"""C03: the engine's configuration never shows in what a program outputs."""
import json, os, re
from ..core import *
from ..progs import corpus

REPO = os.environ.get("VERIF_REPO", "/repo")
VARIANTS = [
    ("blob", [], {}), ("source", ["--source-prelude"], {}), ("blob-bytes", [], {"EU_PREDECODE": "0"}), ("source-bytes", ["--source-prelude"], {"EU_PREDECODE": "0"}),
    ("no-dce", ["--no-dce"], {}), ("no-demand", ["--suppress-demand-analysis"], {}), ("again", [], {}),
    ("source-no-dce", ["--source-prelude", "--no-dce"], {}), ("source-no-demand", ["--source-prelude", "--suppress-demand-analysis"], {}),
    ("all-off", ["--no-dce", "--suppress-demand-analysis"], {"EU_PREDECODE": "0"}), ("env-source", [], {"EU_SOURCE_PRELUDE": "1"}),
]
FORMATS = [["-j"], ["-x", "yaml"], ["-x", "edn"], ["-x", "toml"], ["-x", "text"], ["-x", "eu"], ["-x", "json", "--pretty"] if False else ["-x", "html"]]
BASE = ["--suppress-type-warnings", "--seed", "42"]


FOUND = "meta() of a prelude function in the source prelude"


def docless(out):
    """The output without doc and type metadata, None when it is not JSON."""
    def go(v):
        if isinstance(v, dict):
            v = {k: go(x) for k, x in v.items() if not (k in ("doc", "type") and isinstance(x, str))}
        return [go(x) for x in v] if isinstance(v, list) else v
    try:
        return go(json.loads(out))
    except ValueError:
        return None


def compare(c, src, args, variants, what, files=None, timeout=20, key=None, cwdfiles=None):
    """Run src under the reference configuration and each variant."""
    ref = c.eu_src(src, BASE + args, files=files, timeout=timeout)
    if ref.timeout:
        c.cov("skipped: reference run too long")
        return None
    c.count(key or src)
    c.cov(what)
    c.cov("reference succeeds" if ref.rc == 0 else "reference fails")
    for name, a, env in variants:
        r = c.eu_src(src, BASE + a + args, env=env, files=files, timeout=timeout * 3)
        c.cov("against " + name)
        if r.timeout and ref.wall > 3:
            c.unsure("slow under " + name)
            continue
        if (r.rc == 0) != (ref.rc == 0) and b"unresolved variable" in r.err + ref.err:
            c.cov("unknown name in code that is never needed")
            continue
        if r.timeout and ref.rc != 0:
            # a program without a value: failing and running on forever are the same non-answer
            c.unsure("runs on under %s where the reference fails" % name)
            continue
        if r.timeout or r.rc != ref.rc or r.out != ref.out:
            if r.rc == 0 == ref.rc and "meta(" in src and docless(r.out) == docless(ref.out) is not None:
                c.violate("an inlined function loses its metadata", "reference:\n%s\n\n%s:\n%s" % (ref.brief(), name, r.brief()), {"main.eu": src}, args=BASE + a + args, env=env, signature=FOUND)
                continue
            c.violate("%s: %s differs from the default configuration (%s)" % (
                what, name, "no answer" if r.timeout else "status %s against %s" % (r.rc, ref.rc) if r.rc != ref.rc else "output"),
                "reference:\n%s\n\n%s:\n%s" % (ref.brief(), name, r.brief()), dict({"main.eu": src}, **{k: v for k, v in (files or {}).items()}), args=BASE + a + args, env=env)
            return ref
    return ref


LIT = re.compile(r'(?<![\w.-])\d+(?![\w.])|"[^"{}\\]*"|\btrue\b|\bfalse\b|\[\]')


def mutate(r, src):
    """An ill-typed or failing relative of a program."""
    for _ in range(r.randint(1, 2)):
        ms = list(LIT.finditer(src))
        if not ms:
            return src
        m = r.choice(ms)
        src = src[:m.start()] + r.choice(['panic("mutated")', '"oops"', "[]", "{}", "null", ":sym", "no-such-name", "(1 / 0)", "{ a: 1 }", "identity", "-1", "3.5", "true"]) + src[m.end():]
    return src


# -- prelude calls on values of any kind ----------------------------------------------
POOL = {
    "n": ["0", "1", "2", "3", "7", "-1", "2.5", "100", "9007199254740993", "0 - 3"],
    "s": [":a", ":b", "\"a\"", "\"hello\"", "\"\"", "\"a,b;c\"", "\"%d\"", "\"1.5\"", "\"Zoë\""],
    "b": ["{}", "{ a: 1 }", "{ a: 1 b: 2 c: 3 }", "{ a: { b: 1 c: [1, 2] } d: 4 }", "{ b: 2 a: 9 }", "{ k: :v z: \"s\" }"],
    "l": ["[]", "[1]", "[3, 1, 2]", "[1, 2, 3, 4, 5]", "[\"b\", \"a\"]", "[[1, 2], [3, 4]]", "[:a, :b]", "[{ a: 1 }, { a: 2 }]", "[true, false]", "[[:a, 1], [:b, 2]]", "[0.5, 2]"],
    "f": ["identity", "inc", "(+ 1)", "(* 2)", "const(3)", "count", "head", "(> 1)", "str.of", "_ * 2 + 1" if False else "(_0 * 2)", "not", "(= :a)", "block", "list?", "{ f(x): [x] }.f"],
    "g": ["+", "*", "(>)" if False else "max", "const", "flip(const)", "merge", "(_0 - _1)", "{ f(x, y): [y, x] }.f", "cons", "<", "append"],
    "x": ["null", "true", "false", "{ f(x): x }.f", "set.from-list([1, 2])", "vec.of([1, 2, 3])", "t\"2020-01-02\"", "arr.fill([2, 2], 1)"],
}
NAMED = {"l": "l", "ls": "l", "xs": "l", "list": "l", "l1": "l", "l2": "l", "as": "l", "bs": "l", "n": "n", "m": "n", "i": "n", "k": "s", "s": "s", "re": "s", "sym": "s", "b": "b", "block": "b",
         "f": "f", "p?": "f", "p": "f", "g": "g", "op": "g", "lt": "g", "o": "b", "d": "x", "e": "x", "t": "s", "fmt": "s", "v": "s", "vs": "l", "x": "n", "y": "n", "z": "n", "a": "n", "acc": "n", "c": "n", "key": "s", "syms": "l", "ks": "l"}
ENDLESS = {"repeat", "iterate", "ints-from", "cycle", "panic", "while", "io", "random-stream", "par-map", "from", "epoch-time"}
DECL = re.compile(r"^(  )?([a-z][a-zA-Z0-9_?!*-]*)(?:\(([^()]*)\))?:")


def prelude_calls():
    """(callable, parameter names) of the prelude's public functions, read from the tree under test."""
    out, ns, skip = [], None, False
    for line in open(os.path.join(REPO, "lib", "prelude.eu"), encoding="utf-8"):
        if line.startswith("`") or line.startswith(" `"):
            skip = "suppress" in line and "doc" not in line
        m = re.match(r"^([a-z]+): .*\{\s*$", line)
        if m:
            ns = m.group(1)
            continue
        if line.startswith("}"):
            ns = None
        m = DECL.match(line)
        if not m or not m.group(3):
            continue
        if m.group(1) and ns in (None, "io", "eu"):
            continue
        name = (ns + "." if m.group(1) else "") + m.group(2)
        if m.group(2) in ENDLESS or ns == "io" and m.group(1) or m.group(2).startswith("par") or "__" in name:
            continue
        ps = [re.sub(r"[\[\]{}:]", " ", x).split()[0] if re.sub(r"[\[\]{}:]", " ", x).split() else "x" for x in m.group(3).split(",")]
        out.append((name, ps))
    return out


def call(r, fns):
    name, ps = r.choice(fns)
    args = []
    for p in ps:
        kind = NAMED.get(p, "x")
        if r.random() < .1:
            kind = r.choice("nsblfgx")
        a = r.choice(POOL[kind])
        args.append(a)
    k = r.random()
    if k < .1 and len(args) > 1:
        e = "%s(%s)" % (name, ", ".join(args[:-1]))
        e = "({ g: %s }.g)(%s)" % (e, args[-1])
    elif k < .25:
        e = "%s %s%s" % (args[-1] if re.match(r"^[\[{\"\w.]+", args[-1]) and " " not in args[-1] else "(%s)" % args[-1], name, "(%s)" % ", ".join(args[:-1]) if args[:-1] else "")
    elif k < .35:
        e = "[%s] map(%s) head" % (args[-1], "%s(%s)" % (name, ", ".join(args[:-1])) if args[:-1] else name)
    else:
        e = "%s(%s)" % (name, ", ".join(args))
    k = r.random()
    if k < .12:
        e = "(%s) list?" % e
    elif k < .2:
        e = "(%s) block?" % e
    elif k < .26:
        e = "(%s) = (%s)" % (e, e)
    elif k < .3:
        e = "[%s, %s]" % (e, e)
    elif k < .34:
        e = "(%s) ▶" % e if False else "{ r: %s }" % e
    elif k < .38:
        e = "(%s) (null?)" % e if False else "null?(%s)" % e
    elif k < .42:
        e = "str.of(%s)" % e
    elif k < .46:
        e = "(%s) as(:json)" % e if False else "render-as(:json, %s)" % e
    elif k < .49:
        e = "meta(%s)" % e
    return e


PREDS = ["list?", "block?", "null?", "number?", "string?", "symbol?", "datetime?", "boolean?", "nil?", "non-nil?", "set?", "vec?", "array?", "count", "str.of", "meta", "= f", "eu.build" if False else "type-of" if False else "not"]
BODIES = ["[x]", "{k: x}", "x", "1", "\"s\"", ":s", "true", "null", "x + 1", "cons(x, [])", "const(x)", "if(x, [x], x)", "[x] head", "set.from-list([x])", "t\"2020-01-01\"", "{k: x}.k", "x x"]


def templates(c):
    out = []
    for b in BODIES:
        for p in PREDS:
            out.append("{ f(x): %s r: f %s }.r" % (b, p))
            out.append("[{ f(x): %s }.f] map(%s) head" % (b, p if not p.startswith("=") else "(= 1)"))
    return out


EXTRA = [
    # imports, targets, dot chains over imported data, metadata-driven output
    ("` { import: \"lib.eu\" }\na: { x: inner-value b: helper(3) }\n", [], {"lib.eu": "inner-value: 10\nhelper(n): n * 2 + local\nlocal: 5\n"}),
    ("` { import: \"lb=lib.eu\" }\na: lb.helper(4)\n", [], {"lib.eu": "` :suppress\nhelper(n): n * 2\nvis: 3\n"}),
    ("{ import: \"resource:lens\" }\na: { p: { q: 3 } } view(at(:p) ∘ at(:q))\n", [], {}),
    ("` { target: :tt }\nt: { a: [1, 2] map(+ 1) }\nother: panic(\"no\")\n", ["-t", "tt"], {}),
    ("` { target: :main format: :yaml }\nm: { z: 1 a: \"x: y\" }\n", [], {}),
    ("` :suppress\nhid: 4\nvis: hid + 1\n", [], {}),
    ("d: { import: \"d.json\" } d.a\nr: d.a\n", [], {"d.json": "{\"a\": [1, 2.5, null, \"x\"]}"}),
    ("x: :{ a: 1 }" if False else "x: { :tag a: 1 }\n", ["-x", "html"], {}),
    ("page: [:html, {lang: \"en\"}, [:body, {}, \"a < b\", [:br, {}]]]\n", ["-e", "page", "-x", "html"], {}),
    ("{ import: \"resource:state\" }\nr: 1\n", [], {}),
    ("{ import: \"resource:contract\" }\nr: 1\n", [], {}),
    ("{ import: \"resource:markup\" }\nr: 1\n", [], {}),
    ("{ import: \"resource:reflect\" }\nr: 1\n", [], {}),
    ("{ import: \"resource:do\" }\nr: 1\n", [], {}),
    ("r: range(0, 200) map(_ * 3) filter(> 10) foldl(+, 0)\n", [], {}),
    ("r: random.stream(7) random.shuffle([1, 2, 3, 4]) first\n" if False else "r: { :random a: random.int(10) b: random.float }(random.stream(5)).value\n", [], {}),
    ("map: 3\nr: [1, 2] filter(> 1)\n", [], {}), ("foldl(a): a\nr: [1, 2, 3] reverse\n", [], {}), ("if(a, b, c): a\nr: [1, 2] map(inc)\n", [], {}),
    ("str: { of(x): 1 }\nr: \"{str.of(2)}\" \nq: str.of(3)\n" if False else "str: { of(x): 1 }\nq: str.of(3)\n", [], {}),
    ("eu: 1\nr: eu\n", [], {}), ("head: 1\nr: [1, 2] second\n", [], {}), ("x: [1, 2, 3] first\nfirst(l): 9\n", [], {}),
    ("nil: 2\nr: [] count\ns: [nil]\n", [], {}), ("(l + r): 4\nq: 1 + 2\nr: [1, 2] foldl(+, 0)\ns: inc(1)\n", [], {}),
    ("(l = r): true\nq: 1 = 2\nr: [1, 2] any(= 3)\n", [], {}), ("panic(s): 3\nr: panic(\"x\")\nq: [1] head\n", [], {}),
    ("assert(a): 1\n r: 2\n", [], {}), ("not(x): x\nr: true not\nq: 1 != 1\n", [], {}), ("block: 3\nr: { a: 1 } map-values(inc)\n", [], {}),
    ("merge(a, b): a\nr: { a: 1 } { a: 2 }\n", [], {}), ("lookup(a, b): 2\nr: { a: 1 }.a\n", [], {}), ("cat(a, b): 2\nr: 3 inc\n", [], {}),
    ("r: meta(inc)\n", [], {}), ("null: 3\n", [], {}), ("r: null\ns: [null] map(null?)\n", [], {}), ("deep: { a: { b: { c: ${1} } } }\n" if False else "deep: { a: { b: { c: 1 } } }.a.b.c\n", [], {}),
]


def main():
    c = Ctx("C03", rule="distinct programs (units) whose output and status under other engine configurations were compared with the default one")
    c.assumptions += ["reference is the default configuration; programs whose reference run exceeds its time limit are skipped", "--seed is fixed"]
    r = c.sub("main")
    # fixed probes in every configuration
    c.pmap(lambda x: compare(c, x[0], x[1] if any(a in ("-x",) for a in x[1]) else ["-j"] + x[1], VARIANTS[1:], "unit", files=x[2], key=repr(x)), EXTRA)

    # prelude calls: one run each in the default configuration sorts values from failures
    fns = prelude_calls()
    c.cov("prelude functions known", len(fns))
    es = templates(c)
    if c.quick:
        r.shuffle(es)
        es = es[:150]
    seen = set(es)
    order = fns[:]
    n = 1100 if c.quick else 7000
    while len(es) < n:
        if not order:
            order = fns[:]
            r.shuffle(order)
        e = call(r, [order.pop()])
        if e not in seen:
            seen.add(e)
            es.append(e)
    good, bad = [], []

    def sort(e):
        x = c.eu_src("r: %s\n" % e, BASE + ["-j"], timeout=8)
        if x.timeout:
            c.cov("skipped: reference run too long")
        elif x.rc == 0 and len(x.out) < 20000:
            good.append(e)
        else:
            bad.append(e)
        if crashed(x):
            c.cov("crashes (judged by C24)")
    c.pmap(sort, es)
    good.sort()
    bad.sort()
    r.shuffle(good)
    r.shuffle(bad)
    c.cov("calls with a value", len(good))
    c.cov("calls that fail", len(bad))

    def batch(ig):
        i, g = ig
        if len(c.violations) >= 20:
            return
        src = "\n".join("r%d: %s" % (k, e) for k, e in enumerate(g)) + "\n"
        for e in g:
            c.count(e)
        vs = VARIANTS[1:] if not c.quick else [VARIANTS[1], VARIANTS[2]] + r.sample(VARIANTS[3:], 2)
        before = len(c.violations)
        compare(c, src, FORMATS[0] if i % 3 == 0 else FORMATS[(i // 3) % 3], vs, "prelude calls", timeout=30)
        if len(c.violations) > before:
            for e in g:
                compare(c, "r: %s\n" % e, ["-j"], vs, "prelude call", timeout=20)
    gs = [good[i:i + 12] for i in range(0, len(good), 12)]
    c.pmap(batch, enumerate(gs))
    nb = 160 if c.quick else len(bad)
    c.pmap(lambda ie: compare(c, "r: %s\n" % ie[1], ["-j"], [VARIANTS[1 + ie[0] % 10], VARIANTS[1 + (ie[0] + 3) % 10]] if c.quick else VARIANTS[1:6], "failing call", timeout=10),
           enumerate(bad[:nb]))

    # generated programs, rotating formats; and failing relatives
    specs = []
    for _ in range(1 if c.quick else 5):
        specs += [(250, dict(depth=4, budget=25)), (200, dict(depth=5, budget=60)), (150, dict(depth=6)), (25, dict(depth=8, budget=400))]
    k = 0
    for ps in corpus(c, "main", specs):
        def go(ip):
            i, p = ip
            if len(c.violations) >= 20:
                return
            rr = random.Random("%s/%d" % (p.key, i))
            fmt = rr.choice(FORMATS)
            if fmt[-1] == "toml" and not p.whole:
                fmt = ["-j"]
            vs = [VARIANTS[1]] + rr.sample(VARIANTS[2:], 2 if c.quick else 5)
            compare(c, p.src, fmt + p.args(), vs, "generated program " + fmt[-1].lstrip("-"))
            m = mutate(rr, p.src)
            if m != p.src:
                compare(c, m, fmt + p.args(), rr.sample(VARIANTS[1:], 2 if c.quick else 4), "mutated program")
        c.pmap(go, enumerate(ps))
        if ps:
            c.sample(ps[0].src)
        if not c.left(200, 800) or len(c.violations) >= 20:
            break
    for e in good[:4] + bad[:2]:
        c.sample(e)
    return c.finish(500)
