"""C18: string literals denote the text they spell."""
from ..core import *
from ..batch import Case, Err, run_cases
from .c08 import fmt_case

HEAD = """x: 5
y: "why"
z: :zed
n: 42
neg: 0 - 7
pi: 3.25
ok?: true
a-b: "dash {x}"
名: "nom"
empty: ""
brace: "}{" str.replace("a", "b")
blk: { x: 1 y: "in" deep: { x: :d z: { n: 9 v: "v{x}" } } }
up(s): s str.of str.to-upper
wrap(s): "<{s}>"
twice(v): v * 2
"""
HEAD = HEAD.replace('brace: "}{" str.replace("a", "b")', 'brace: c"\\}\\{"')
TOP = {"x": "5", "y": "why", "z": "zed", "n": "42", "neg": "-7", "pi": "3.25", "ok?": "true", "a-b": "dash 5", "名": "nom", "empty": "", "brace": "}{",
       "blk.x": "1", "blk.y": "in", "blk.deep.x": "d", "blk.deep.z.n": "9", "blk.deep.z.v": "vd"}
NUMERIC = {"x": 5, "n": 42, "neg": -7, "blk.x": 1, "blk.deep.z.n": 9}
CHARS = "abcXYZ 019.,;:!?#`'~@$%^&*()[]<>=+-_/|é日ß🎈\u0301\u00a0\u2028\\\\\\\t\n"
PLAINCH = CHARS + "}"
ESC = [("\\n", "\n"), ("\\t", "\t"), ("\\r", "\r"), ("\\\\", "\\"), ("\\\"", "\""), ("\\{", "{"), ("\\}", "}"), ("\\0", "\0"), ("\\x41", "A"), ("\\x7e", "~"), ("\\x7B", "{"), ("\\xe9", "é"), ("\\x22", "\""), ("\\x0a", "\n"),
       ("\\u03b1", "α"), ("\\u2028", "\u2028"), ("\\u007d", "}"), ("\\u005C", "\\"), ("\\U0001F600", "😀"), ("\\U00000041", "A"), ("\\U0010ffff", "\U0010ffff")]


def text_piece(r, kind):
    """(source, text) of a literal stretch."""
    src, out = [], []
    for _ in range(r.choice([1, 1, 2, 3, 8])):
        k = r.random()
        if kind == "c":
            if k < .5:
                s, t = r.choice(ESC)
            else:
                s = t = r.choice(CHARS.replace("\\", ""))
        elif k < .2:
            s, t = r.choice([("{{", "{"), ("}}", "}"), ("{{{{", "{{"), ("}}}}", "}}"), ("{{}}", "{}"), ("}}{{", "}{")])
        elif k < .28:
            s = t = r.choice(["\\n", "\\", "\\d", "\\\\", "\\u0041", "\\x", "\\{{" if False else "\\t"])
        else:
            s = t = r.choice(CHARS)
        src.append(s)
        out.append(t)
    return "".join(src), "".join(out)


def pad_ws(r, s):
    return s if r.random() < .75 else r.choice([" %s", "%s ", " %s ", "\t%s", "  %s  "]) % s


def interp(r, env, nums):
    """(source, text) of a reference with an optional format."""
    name = r.choice(sorted(env))
    k = r.random()
    dots = name.replace(".", r.choice([".", ".", ".", " . ", ". "]))
    if k < .6 or name not in nums and k < .8:
        return "{%s}" % pad_ws(r, dots), env[name]
    if name in nums and k < .85:
        v = nums[name]
        spec, t = r.choice([("%d", "%d" % v), ("%05d", "%05d" % v), ("%-6d", "%-6d" % v), ("%+d", "%+d" % v), ("%8d", "%8d" % v), ("%.2f", "%.2f" % v), ("%x", "%x" % (v % 2**64)), ("%08.3f", "%08.3f" % v)])
        return "{%s:%s}" % (pad_ws(r, dots).rstrip() if False else dots, spec), t
    if name in nums:
        f, t = r.choice([("twice", str(nums[name] * 2)), ("inc", str(nums[name] + 1)), ("wrap", "<%d>" % nums[name])])
        return "{%s:%s}" % (dots, f), t
    v = env[name]
    if v in ("zed", "d") or name in ("pi", "ok?"):
        return "{%s:wrap}" % dots, "<%s>" % v
    f, t = r.choice([("up", v.upper()), ("wrap", "<%s>" % v), ("%s", v), ("%8s", v.rjust(8)), ("%-8s|" if False else "%-8s", v.ljust(8))])
    if f == "up" and not v.isascii():
        f, t = "wrap", "<%s>" % v
    return "{%s:%s}" % (dots, f), t


def literal(r, env, nums, holes=None):
    """(source, pieces): pieces are texts, or integers for anaphora."""
    kind = r.choice(["", "", "r", "c", "c"])
    src, out = [], []
    k = 0
    for _ in range(r.choice([0, 1, 1, 2, 3, 5, 9])):
        if r.random() < .5:
            s, t = text_piece(r, kind)
        else:
            s, t = interp(r, env, nums)
        src.append(s)
        out.append(t)
    if holes == "anon":
        n = r.randint(1, 4)
        for i in range(n):
            at = r.randint(0, len(src))
            src.insert(at, None)
            out.insert(at, None)
        for i, s in enumerate(src):
            if s is None:
                src[i] = r.choice(["{}", "{}", "{ }", "{:wrap}"])
                out[i] = (k, src[i] == "{:wrap}")
                k += 1
    elif holes == "num":
        for _ in range(r.randint(1, 4)):
            at = r.randint(0, len(src))
            i = r.randrange(4)
            s = r.choice(["{%d}", "{%d}", "{ %d }", "{%d:wrap}"]) % i
            src.insert(at, s)
            out.insert(at, (i, "wrap" in s))
            k = max(k, i + 1)
    return kind + '"' + "".join(src) + '"', out, k


def ambiguous(src):
    """A lone closing brace next to other braces can be read in two ways."""
    return False


def lit_val(r):
    v = r.choice([1, 42, -3, "s", "é日", "", "{}", "a b", ":sym"])
    if isinstance(v, int):
        return str(v) if v >= 0 else "(0 - %d)" % -v, str(v), v
    if v == ":sym":
        return v, "sym", None
    return '"%s"' % v.replace("{", "{{").replace("}", "}}"), v, None


def case(r):
    """One expression built around a literal, with the text it denotes."""
    env, nums = dict(TOP), dict(NUMERIC)

    def bind(name, src, text, num):
        for k in [k for k in env if k == name or k.startswith(name + ".")]:
            del env[k]
            nums.pop(k, None)
        env[name] = text
        if num is not None:
            nums[name] = num
        return src
    pool = ["x", "y", "n", "p", "q-r", "blk", "名", "k?"]
    wrap = []
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        names = r.sample(pool, r.randint(1, 3))
        vals = [lit_val(r) for _ in names]
        for nm, v in zip(names, vals):
            bind(nm, *v)
        args = [v[0] for v in vals]
        k = r.randrange(6)
        if k == 0:
            wrap.append(("{ f(%s): " % ", ".join(names), " }.f(%s)" % ", ".join(args)))
        elif k == 1:
            wrap.append(("{ %s r: " % " ".join("%s: %s" % z for z in zip(names, args)), " }.r"))
        elif k == 2:
            wrap.append(("{ %s }.(" % " ".join("%s: %s" % z for z in zip(names, args)), ")"))
        elif k == 3:
            wrap.append(("{ f([%s]): " % ", ".join(names), " }.f([%s])" % ", ".join(args)))
        elif k == 4:
            wrap.append(("{ f({%s}): " % " ".join(names), " }.f({%s})" % " ".join("%s: %s" % z for z in zip(names, args))))
        else:
            wrap.append(("{ f(%s): { g(u): " % ", ".join(names), " }.g(1) }.f(%s)" % ", ".join(args)))
    holes = r.choice([None, None, "anon", "num"])
    src, out, arity = literal(r, env, nums, holes)
    kind = "literal"
    if arity:
        vals = [lit_val(r) for _ in range(arity)]
        args = [v[0] for v in vals]
        out = ["<%s>" % vals[t[0]][1] if t[1] else vals[t[0]][1] for t in [x if isinstance(x, tuple) else (0, x) for x in out]] if False else [
            (("<%s>" if x[1] else "%s") % vals[x[0]][1]) if isinstance(x, tuple) else x for x in out]
        k = r.randrange(5)
        if k == 0:
            e = "{ h: %s }.h(%s)" % (src, ", ".join(args))
        elif k == 1:
            e = "(%s)(%s)" % (src, ", ".join(args))
        elif k == 2 and arity == 1:
            e = "([%s] map(%s)) head" % (args[0], src)
        elif k == 3:
            e = "{ h: %s }.(%s)" % (src, "h(%s)" % args[0] + "".join("(%s)" % a for a in args[1:]))
        else:
            e = "%s apply([%s])" % (src, ", ".join(args)) if False else "{ h: %s }.((%s) h(%s))" % (src, args[-1], ", ".join(args[:-1])) if arity > 1 else "{ h: %s }.((%s) h)" % (src, args[0])
        kind = "anaphora " + holes
    else:
        e = src
        if r.random() < .1:
            e = "[%s] head" % e
    for a, b in reversed(wrap):
        e = a + e + b
    return e, "".join(out), kind + (" c-string" if src[0] == "c" else " raw" if src[0] == "r" else " plain") + ", depth %d" % len(wrap)


BAD = ['"{x"', '"{x:%q}"', 'c"\\q"', 'c"\\x4"', 'c"\\xg1"', 'c"\\u12"', 'c"\\ud800"', 'c"\\U00110000"', 'c"\\', '"abc', 'c"{"', '"{no-such}"', '"{blk.nope}"', '"{}{0}"(1, 2)', 'c"\\"']


def main():
    c = Ctx("C18", rule="distinct literals (with their scope) whose evaluated text was compared with the text they denote")
    r = c.sub("main")
    cases = []
    n = 9000 if c.quick else 90000
    while len(cases) < n:
        e, w, k = case(r)
        cases.append(Case(e, w, k))
    for _ in range(600 if c.quick else 5000):
        v, spec, w = fmt_case(r)
        if any(ch in spec for ch in ":{}\"\\") or isinstance(v, str) and any(ch in v for ch in "{}\"\\"):
            continue
        s = '"%s"' % v if isinstance(v, str) else "(0 - %d)" % -v if isinstance(v, int) and -2**63 < v < 0 else None if isinstance(v, int) and v < 0 else ("%d" % v if isinstance(v, int) else None)
        if s is None:
            continue
        cases.append(Case("{ v: %s }.\"[{v:%s}]\"" % (s, spec), "[" + w + "]", "format in place"))
        cases.append(Case("\"[{:%s}]\"(%s)" % (spec, s), "[" + w + "]", "format of a hole"))
    # every escape next to every other
    for a, ta in ESC:
        for b, tb in ESC:
            cases.append(Case('c"%s%s{x}%s"' % (a, b, a), ta + tb + "5" + ta, "escape pairs"))
    for a, ta in [("{{", "{"), ("}}", "}"), ("{x}", "5"), ("q", "q"), ("\\", "\\")]:
        for b, tb in [("{{", "{"), ("}}", "}"), ("{y}", "why"), ("\n", "\n"), ("\\n", "\\n")]:
            for d, td in [("{{", "{"), ("}}", "}"), ("{x}", "5"), ("", "")]:
                for pre in ("", "r"):
                    cases.append(Case('%s"%s%s%s"' % (pre, a, b, d), ta + tb + td, "brace triples"))
    r.shuffle(cases)
    for x in cases[:8]:
        c.sample("%s => %r" % (x.expr, x.want))
    run_cases(c, cases, HEAD)

    # malformed literals are refused
    def bad(e):
        p = c.eu_src(HEAD + "r: %s\n" % e, ["--suppress-type-warnings", "-j", "-e", "r"], timeout=20)
        c.count("bad" + e)
        c.cov("malformed literal")
        if p.timeout or p.rc == 0 or crashed(p) or not p.err.strip():
            c.violate("malformed literal %s is not refused" % e, p.brief(), {"main.eu": HEAD + "r: %s\n" % e})
    c.pmap(bad, BAD)
    return c.finish(2000)
