"""C08: string functions mean what they say on all Unicode text."""
import base64, hashlib, re
from ..batch import *
from ..val import *
from .. import num as N

WS = "\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2005\u200a\u2028\u2029\u202f\u205f\u3000"
POOL = list("aAbBzZ019 _-.,:;/\\!@#$%^&*()[]<>=+|~`'") + ['"', "{", "}", "\n", "\t", "\r", "\x00"[:0] or "\x01", "é", "É", "ß", "ẞ", "Ω", "ς",
        "Σ", "σ", "İ", "ı", "ŉ", "ǅ", "ﬁ", "ά", "日", "本", "語", "😀", "𝒳", "👨\u200d👩", "\u0301", "\u00a0", "\u2003", "\u200b", "\ufeff", "ա", "ж", "Ж", "Ⅷ", "ⓐ", "𐐀", "𐐨"]


def gs(r, n=None):
    k = r.random()
    if k < .15:
        return r.choice(STRINGS)
    if k < .3:
        return r.choice(["abc", "aab", "abab", "a,b,,c", "k=v;k2=v2", "2024-01-02", "  x  ", "foo.bar", "one two  three", "aaa", ",", ",a", "a,"])
    if k < .55:
        return "".join(r.choice("aab,b. 1") for _ in range(r.choice([0, 1, 3, 6, 12])))
    m = n if n is not None else r.choice([1, 1, 2, 4, 8, 15, 40])
    return "".join(r.choice(POOL) for _ in range(m))


# ---- regular expressions common to Python's re and Rust's regex ----------------
def rx(r, d=2):
    """(rust pattern, python pattern, may match empty)"""
    k = r.random()
    if d == 0 or k < .3:
        c = r.choice(["a", "b", "1", ",", ".", " ", "é", "日", "-", "=", "+", "*", "(", "[", "\\", "$", "^", "|", "?", "😀"])
        p = "\\" + c if c in ".+*([\\$^|?" else c
        return p, p, False
    if k < .45:
        p = r.choice(["[ab]", "[^a]", "[a-c1]", "[0-9]", "[^,]", "[a-zé]", "[^\\n ]", "[日本]", "[a-z]", "\\d", "\\D", "\\s", "\\S", "[A-Z]"])
        return p, p, False
    if k < .5:
        return ".", ".", False
    if k < .62:
        a, b = rx(r, d - 1), rx(r, d - 1)
        return a[0] + b[0], a[1] + b[1], a[2] and b[2]
    if k < .72:
        a, b = rx(r, d - 1), rx(r, d - 1)
        return "(?:%s|%s)" % (a[0], b[0]), "(?:%s|%s)" % (a[1], b[1]), a[2] or b[2]
    if k < .84:
        a = rx(r, d - 1)
        if a[2]:
            return a
        return "(%s)" % a[0], "(%s)" % a[1], False
    a = rx(r, d - 1)
    if a[2]:
        return a
    q = r.choice(["+", "*", "?", "{2}", "{1,2}", "+?", "*?"])
    g = ("(?:%s)%s" % (a[0], q), "(?:%s)%s" % (a[1], q), q[0] in "*?")
    return g


LAST = []


def rxp(r):
    """A pattern; sometimes the one before it with the case of its letters swapped, so
    that patterns differing only in case (or \\d and \\D) are used in one run."""
    while True:
        if LAST and r.random() < .25:
            a, e = LAST.pop()
            return a.swapcase(), re.compile(a.swapcase()), e
        a, b, e = rx(r, 3)
        try:
            c = re.compile(b)
        except re.error:
            continue
        if a.swapcase() != a and "\\n" not in a:
            LAST[:] = [(a, e)]
        return a, c, e


def all_matches(p, s):
    """Non-overlapping matches; None when an empty match is involved."""
    ms = list(p.finditer(s))
    return None if any(m.end() == m.start() for m in ms) else ms


def rust_sci(v, prec):
    m, e = ("%.*e" % (prec, v)).split("e")
    return "%se%d" % (m, int(e))


def pad(t, flags, w):
    if len(t) >= w:
        return t
    if "-" in flags:
        return t + " " * (w - len(t))
    if "0" in flags:
        i = 1 if t[:1] in "+-" else 0
        if t[i:i + 2] in ("0x", "0X"):
            i += 2
        return t[:i] + "0" * (w - len(t)) + t[i:]
    return " " * (w - len(t)) + t


def fmt_case(r):
    flags = "".join(f for f in "-+0#" if r.random() < .25)
    w = r.choice([0, 0, 1, 4, 8, 12, 30])
    k = r.randrange(5)
    ws = str(w) if w else ""
    if k == 0:
        v = N.gen_int(r) if r.random() < .5 else r.randint(-1000, 1000)
        fl = flags.replace("#", "")
        t = ("+" if "+" in fl and v >= 0 else "") + str(v)
        return v, "%" + fl + ws + r.choice(["d", "i", "u", "ld", "lld"]), pad(t, fl, w)
    if k == 1:
        v = r.choice([0, 1, 255, 4096, 2**31, 2**63 - 1, -1, -255, -2**63, r.randint(0, 2**40)])
        fl = flags.replace("+", "")
        c = r.choice("xXo")
        u = v % 2**64
        t = {"x": "%x", "X": "%X", "o": "%o"}[c] % u
        if "#" in fl:
            if c == "o" or v == 0:
                fl = fl.replace("#", "")
            else:
                t = "0x" + t
        return v, "%" + fl + ws + c, pad(t, fl, w)
    if k == 2:
        v = r.choice([N.gen_float(r), r.uniform(-1000, 1000), r.randint(-99, 99), .5, 1.5, 2.5, .125, 1e21, -0.05, 1e-7, 3.0, .1 + .2])
        fl = flags.replace("#", "")
        p = r.choice([0, 1, 2, 3, 6, 10])
        if abs(v) > 1e200:
            v = 1.25
        t = "%.*f" % (p, v)
        return v, "%" + fl + ws + "." + str(p) + r.choice("fF"), pad(("+" if "+" in fl and not t.startswith("-") else "") + t, fl, w)
    if k == 3:
        v = r.choice([r.uniform(-1000, 1000), 1000, 12345.678, 1e-7, 6.02e23, 5e-324, 1.7e308, 99.99, 0.5, -3])
        p = r.choice([0, 1, 2, 5])
        fl = flags.replace("#", "")
        t = rust_sci(v, p)
        c = r.choice("eE")
        t = t.upper() if c == "E" else t
        return v, "%" + fl + ws + "." + str(p) + c, pad(("+" if "+" in fl and not t.startswith("-") else "") + t, fl, w)
    v = gs(r, 5)
    p = r.choice([None, None, 0, 1, 3, 50])
    t = v if p is None else v[:p]
    fl = "-" if "-" in flags else ""
    return (Sym(v) if plain_key(v) and r.random() < .3 else v), "%" + fl + ws + ("" if p is None else "." + str(p)) + "s", pad(t, fl, w)


def main():
    ctx = Ctx("C08", rule="string functions on random Unicode, control-character and pattern-rich strings; distinct by expression text")
    cases = []

    def add(expr, want, kind):
        cases.append(Case(expr, want, kind=kind))
    r = ctx.sub("fn")
    S = lambda s: lz(s, r, .15)
    for _ in range(ctx.scale(3000, 30000)):
        s = gs(r)
        k = r.randrange(22)
        if k == 0:
            add("%s str.letters" % S(s), list(s), "letters")
        elif k == 1:
            add("%s str.len" % S(s), len(s), "len")
        elif k == 2:
            add("%s str.to-upper" % S(s), s.upper(), "upper")
        elif k == 3:
            add("%s str.to-lower" % S(s), s.lower(), "lower")
        elif k == 4:
            s2 = "".join(r.choice(WS) for _ in range(r.choice([0, 1, 3]))) + s + "".join(r.choice(WS) for _ in range(r.choice([0, 1, 3])))
            add("%s str.trim" % S(s2), s2.strip(WS + "".join(c for c in map(chr, range(0x2000, 0x200b)))), "trim")
        elif k == 5:
            p = r.choice([",", " ", "é", "日", "ab", "=", ";"])
            add("%s str.split(%s)" % ("", "") if False else "str.split(%s, %s)" % (S(s), S(p)), s.split(p), "split literal")
        elif k == 6:
            xs = [gs(r) for _ in range(r.choice([0, 1, 2, 3, 6]))]
            d = r.choice(["", ",", "é", ", ", "日本", "\n", gs(r)])
            add(r.choice(["str.join(%s, %s)" % (lz(xs, r, .15), S(d)), "%s str.join-on(%s)" % (lz(xs, r, .15), S(d))]), d.join(xs), "join")
        elif k == 7:
            d = r.choice([",", "::", "é", "\t", "日"])
            xs = [gs(r).replace(d, "").replace(":", "") for _ in range(r.choice([1, 2, 3, 6]))]
            add("%s str.join-on(%s) str.split-on(%s)" % (lz(xs, r, .15), S(d), S(d)), xs, "split after join")
        elif k == 8:
            b = gs(r)
            add("%s str.suffix(%s)" % (S(s), S(b)), s + b, "suffix")
        elif k == 9:
            b = gs(r)
            add("%s str.prefix(%s)" % (S(s), S(b)), b + s, "prefix")
        elif k == 10:
            add("%s str.base64-encode" % S(s), base64.b64encode(s.encode()).decode(), "base64-encode")
        elif k == 11:
            add("%s str.base64-decode" % S(base64.b64encode(s.encode()).decode()), s, "base64-decode")
        elif k == 12:
            add("%s str.sha256" % S(s), hashlib.sha256(s.encode()).hexdigest(), "sha256")
        elif k == 13:
            b = r.choice([s, s + "a", s[:-1], gs(r), s.swapcase()])
            o = r.choice(["lt", "gt", "lte", "gte"])
            w = {"lt": s < b, "gt": s > b, "lte": s <= b, "gte": s >= b}[o]
            add("str.%s(%s, %s)" % (o, S(s), S(b)), w, "str." + o)
        elif k == 14:
            v = gen_scalar(r)
            if isinstance(v, float):
                add("num(str.of(%s)) = %s" % (N.lit(v), N.lit(v)), True, "str.of float")
            else:
                w = "null" if v is None else ("true" if v else "false") if isinstance(v, bool) else v.name() if isinstance(v, Sym) else str(v)
                add("str.of(%s)" % to_eu(v, r), w, "str.of")
                if isinstance(v, Sym):
                    add("sym(str.of(%s)) = %s" % (to_eu(v), to_eu(v)), True, "sym of str.of")
        elif k == 15:
            n = N.gen_num(r)
            add("num(%s)" % S(repr(n) if isinstance(n, float) and abs(n) < 1e15 and abs(n) > 1e-3 else N.lit(n) if not isinstance(n, float) else "%r" % n),
                Pred(lambda got, n=n: not isinstance(got, bool) and got == n, "number equal to %r" % n), "num") if not (isinstance(n, float) and (n != n or abs(n) == float("inf"))) else None
        elif k == 16:
            add("%s str.letters str.join-on(%s)" % (S(s), S("")), s, "join letters")
        elif k == 17:
            add("%s str.to-upper str.to-lower str.to-upper = %s str.to-upper" % (S(s), S(s)) if False else "(%s str.to-lower) = (%s)" % (S(s), S(s.lower())), True, "lower =")
        else:
            v, spec, w = fmt_case(r)
            add("str.fmt(%s, %s)" % (lz(v, r), S(spec)), w, "fmt " + spec[-1])
    # regular expressions
    r = ctx.sub("re")
    n = 0
    while n < ctx.scale(2500, 25000):
        a, p, e = rxp(r)
        base = gs(r)
        s = base if r.random() < .5 else "".join(r.choice("aab1,. é日-=") for _ in range(r.choice([1, 3, 7, 14])))
        if "\r" in s:
            continue
        if not e and len(a) < 25 and r.random() < .3:
            s += a if not set(a) & set("[](){}*+?|\\.^$") else "ab"
        P = S(a)
        ms = all_matches(p, s)
        k = r.randrange(10)
        m = p.search(s)
        n += 1
        if k < 2:
            if ms is None:
                continue
            out, last = [], 0
            for x in ms:
                out.append(s[last:x.start()])
                last = x.end()
            out.append(s[last:])
            add(r.choice(["str.split(%s, %s)" % (S(s), P), "%s str.split-on(%s)" % (S(s), P)]), out, "split regex")
        elif k == 2:
            w = [] if not m else [m.group(0)] + [g or "" for g in m.groups()]
            add(r.choice(["str.match(%s, %s)" % (S(s), P), "%s str.match-with(%s)" % (S(s), P)]), w, "match")
        elif k == 3:
            if ms is None:
                continue
            add(r.choice(["str.matches(%s, %s)" % (S(s), P), "%s str.matches-of(%s)" % (S(s), P)]), [x.group(0) for x in ms], "matches")
        elif k == 4:
            if ms is None:
                continue
            rep = r.choice(["", "X", "--", "é", "日", "a b", "\\", "{}", '"', "a"])
            out = p.sub(lambda _: rep, s)
            add("%s str.replace(%s, %s)" % (S(s), P, S(rep)), out, "replace")
        elif k == 5:
            add("%s str.contains?(%s)" % (S(s), P), m is not None, "contains?")
        elif k == 6:
            add("%s str.starts-with?(%s)" % (S(s), P), re.match(p.pattern, s) is not None, "starts-with?")
        elif k == 7:
            add("%s str.ends-with?(%s)" % (S(s), P), re.search("(?:%s)\\Z" % p.pattern, s) is not None, "ends-with?")
        elif k == 8:
            full = p.fullmatch(s) is not None
            if full or m is None:   # partial matches: see known-findings.json
                add("%s str.matches?(%s)" % (S(s), P), full, "matches?")
        else:
            if p.groups == 1:
                d = "D" + s[:2]
                w = d if not m else (m.group(1) or "")
                add("%s str.extract-or(%s, %s)" % (S(s), P, S(d)), w, "extract-or")
                if m:
                    add("%s str.extract(%s)" % (S(s), P), m.group(1) or "", "extract")
    # captured groups in the replacement
    for _ in range(ctx.scale(60, 600)):
        a, b = gs(r, 2), gs(r, 2)
        t = "".join(r.choice("ab1 ,=") for _ in range(10))
        add("%s str.replace(%s, %s)" % (S(t), S("([ab])([0-9 ])"), S("<$2$1>")), re.sub("([ab])([0-9 ])", r"<\2\1>", t), "replace $n")
    for bad in ["(", "[a", "*", "a{2,1}", "(?P<", "\\"]:
        for f in ["str.split-on", "str.match-with", "str.matches-of", "str.contains?", "str.starts-with?"]:
            add("%s %s(%s)" % (S("ab"), f, S(bad)), Err(), "bad pattern")
    for bad in ["abc", "a===", "%%%%", "/w==", "YQ"]:
        add("%s str.base64-decode" % S(bad), Err(), "bad base64")
    for spec in ["d", "", "%", "%q", "%99999999999999999999d", "%70000d", "%.70000f", "%5"]:
        add("str.fmt(5, %s)" % S(spec), Err(), "bad format")
    for x in ["abc", "", "1x", "--1", "0x10", " "]:
        add("num(%s)" % S(x), Err(), "bad number")
    for k in (65535, 65536, 70001, 200000):
        add('str.len(str.fmt(repeat("é") take(%d) str.join-on(""), "%%s"))' % k, k, "long string fmt")
    add('"abcd" str.matches?("b")', False, "matches? full")
    # shell quoting: the shell itself is the oracle
    r = ctx.sub("sh")
    shc = []
    for _ in range(ctx.scale(250, 2500)):
        s = gs(r).replace("\x00", "")
        s = s + r.choice(["", "$HOME", "`id`", "$(id)", "\\", '"', "'", "\\n", "!!", "*", "\\$", '\\"', "a b"])
        shc.append(s)
    def sh_pred(s, q):
        def f(got):
            o = subprocess.run(["/bin/sh", "-c", "printf %s " + (q % got)], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               cwd="/", env={"HOME": "/h", "PATH": "/nonexistent"}, timeout=20,
                               **({"user": 65534, "group": 65534, "extra_groups": []} if os.getuid() == 0 else {}))
            return o.returncode == 0 and o.stdout == s.encode()
        return f
    for s in shc:
        add("%s str.shell-escape" % S(s), Pred(sh_pred(s, "%s"), "sh word denoting %r" % s), "shell-escape")
        add("%s str.dq-escape" % S(s), Pred(sh_pred(s, '"%s"'), "sh quoted text denoting %r" % s), "dq-escape")
    r.shuffle(cases)
    run_cases(ctx, cases, sig=lambda c: "matches? accepts a partial match" if c.kind == "matches? full" else None)
    return ctx.finish(min_distinct=3000)
