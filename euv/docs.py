"""Documents of every import format, each with the data it holds in the form the
`show` header gives: ["#b", [key, value]...] for blocks, ["#l", ...] for lists,
["#s", name] for symbols, ["#t", text] for date-times, anything else itself."""
import json, random, datetime, tomllib
from .val import Sym

SHOW = """
show(v): if(v block?, cons("#b", v elements map(show-pair)), if(v list?, cons("#l", v map(show)), if(v symbol?, ["#s", str.of(v)], if(v datetime?, ["#t", v], v))))
show-pair([k, x]): [str.of(k), show(x)]
"""


class Stamp(str):
    """The rendering of a date-time."""


class Any(Exception):
    pass


def show(v):
    if isinstance(v, dict):
        return ["#b"] + [[str.__str__(k), show(x)] for k, x in v.items()]
    if isinstance(v, (list, tuple)):
        return ["#l"] + [show(x) for x in v]
    if isinstance(v, Sym):
        return ["#s", v.name()]
    if isinstance(v, Stamp):
        return ["#t", str(v)]
    return v


def stamp(d):
    """How a date-time is rendered."""
    off = d.utcoffset() or datetime.timedelta(0)
    m = int(off.total_seconds() // 60)
    fr = "" if not d.microsecond else ".%03d" % (d.microsecond // 1000) if d.microsecond % 1000 == 0 else ".%06d" % d.microsecond
    return Stamp("%04d-%02d-%02d %02d:%02d:%02d%s %s%02d:%02d" % (d.year, d.month, d.day, d.hour, d.minute, d.second, fr, "-" if m < 0 else "+", abs(m) // 60, abs(m) % 60))


KEYS = ["a", "b", "c", "name", "id", "x1", "foo-bar", "zed", "value", "Kind", "n", "items", "meta", "type", "import", "export", "target", "doc", "main", "str", "map", "head", "list", "block", "if", "then", "cons", "true", "null", "false", "t", "r", "s", "f", "e"]
WEIRD = ["a b", "é", "日本", "x.y", "x:y", "", " lead", "trail ", "0", "12", "-3", "1.5", "<<", "#h", "k=v", "{b}", "[l]", "a'b", 'q"q', "\\n", "back\\slash", "*s", "&a", "!t", "|", ">", "%p", "@at", "`t", "?q", "- d", "~", "yes", "on", "😀", "a\tb", "$ref", "_", "__proto__"]
TEXTS = ["", "a", "hello world", "true", "null", "1", "1.5", "-", "~", "é", "日本語", "😀x", 'say "hi"', "it's", "back\\slash", "tab\there", "line1\nline2", " lead", "trail ", "{x}", "{{x}}", "[1]", "a: b", "# no", "x # y", "2020-01-01", "2020-01-01T00:00:00Z", "0x1F", "0o7", "1e5", ".5", "+1", "<<", "*a", "&a", "!eu 1", "=1", "%d", "a,b", "a;b", "<b>&amp;</b>", "\u00a0", "\u2028", "null ", "NaN", ".inf", "yes", "off", "\r\n", "a\rb", "\u0001", "\x7f", "ﬁ", "\ufeff", "]]>", "x" * 300]


def key(r, weird=.2):
    return r.choice(WEIRD) if r.random() < weird else r.choice(KEYS) + (str(r.randrange(30)) if r.random() < .3 else "")


def text(r):
    if r.random() < .5:
        return r.choice(TEXTS)
    return "".join(r.choice(TEXTS)[:3] or "q" for _ in range(r.randint(1, 4)))


def integer(r):
    return r.choice([0, 1, -1, 7, 42, r.randint(-1000, 1000), 2**31, -2**31 - 1, 2**53, 2**53 + 1, -2**53 - 1, 2**63 - 1, -2**63, r.randint(-2**63, 2**63 - 1)])


def floating(r):
    return r.choice([0.5, -2.25, 1.0, 1e10, 1e21, 1.5e-7, 0.1, 3.141592653589793, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, -0.1, 100.0, r.uniform(-1e3, 1e3), r.uniform(-1, 1) * 10 ** r.randint(-20, 20)])


def value(r, d, null=True, big=True):
    k = r.random()
    if d > 0 and k < .3:
        return [value(r, d - 1, null, big) for _ in range(r.choice([0, 1, 2, 3, 5]))]
    if d > 0 and k < .65:
        return block(r, d - 1, null=null, big=big)
    k = r.random()
    if k < .35:
        return text(r)
    if k < .6:
        return integer(r) if not big or r.random() < .9 else r.choice([2**63, 2**64 - 1, 2**63 + r.randrange(2**62)])
    if k < .8:
        return floating(r)
    return r.choice([True, False, None] if null else [True, False])


def block(r, d, n=None, **kw):
    out = {}
    for _ in range(r.choice([0, 1, 2, 3, 4, 6]) if n is None else n):
        out[key(r)] = value(r, d, **kw)
    return out


# -- JSON ---------------------------------------------------------------------
def jstr(r, s):
    out = []
    for c in s:
        o = ord(c)
        if c in '"\\':
            out.append("\\" + c)
        elif o < 32:
            out.append({8: "\\b", 9: "\\t", 10: "\\n", 12: "\\f", 13: "\\r"}.get(o, "\\u%04x" % o))
        elif o in (0x7f, 0x85, 0x2028, 0x2029, 0xfeff):
            out.append("\\u%04x" % o)
        elif o < 0x10000 and r.random() < .03:
            out.append("\\u%04X" % o)
        elif c == "/" and r.random() < .3:
            out.append("\\/")
        else:
            out.append(c)
    return '"%s"' % "".join(out)


def jnum(r, v):
    if isinstance(v, int):
        return str(v)
    s = repr(v)
    if "e" in s and r.random() < .3:
        s = s.replace("e", "E")
    return s


def json_text(r, v, ws=None):
    ws = ws or r.choice([("", ""), (" ", ""), ("\n", " "), ("\n  ", " ")])
    a, b = ws

    def go(v):
        if v is None:
            return "null"
        if v is True or v is False:
            return "true" if v else "false"
        if isinstance(v, (int, float)):
            return jnum(r, v)
        if isinstance(v, str):
            return jstr(r, v)
        if isinstance(v, dict):
            return "{" + ",".join("%s%s:%s%s" % (a, jstr(r, k), b or r.choice(["", " "]), go(x)) for k, x in v.items()) + (a if v else "") + "}"
        return "[" + ",".join(a + go(x) for x in v) + (a if v else "") + "]"
    return go(v)


# -- YAML ---------------------------------------------------------------------
def dtime(r):
    y, mo, d = r.choice([1970, 1999, 2000, 2023, 2024, r.randint(1, 9999)]), r.randint(1, 12), r.randint(1, 28)
    h, mi, s = r.randint(0, 23), r.randint(0, 59), r.randint(0, 59)
    return y, mo, d, h, mi, s


def yaml_stamp(r):
    y, mo, d, h, mi, s = dtime(r)
    day = "%04d-%02d-%02d" % (y, mo, d)
    D = datetime.datetime
    U = datetime.timezone.utc
    k = r.randrange(5)
    if k == 0:
        return day, stamp(D(y, mo, d, tzinfo=U))
    t = "%02d:%02d:%02d" % (h, mi, s)
    us = 0
    if r.random() < .3:
        us = r.choice([500000, 123000, 123456, 1])
        t += (".%06d" % us).rstrip("0")
    sep = r.choice(["T", " "])
    if k == 1:
        return day + sep + t, stamp(D(y, mo, d, h, mi, s, us, tzinfo=U))
    if k == 2:
        return day + sep + t + "Z", stamp(D(y, mo, d, h, mi, s, us, tzinfo=U))
    m = r.choice([0, 60, -300, 330, 345, -570, 840])
    return "%s%s%s%s%02d:%02d" % (day, sep, t, "-" if m < 0 else "+", abs(m) // 60, abs(m) % 60), \
        stamp(D(y, mo, d, h, mi, s, us, tzinfo=datetime.timezone(datetime.timedelta(minutes=m))))


PLAIN = [("null", None), ("Null", None), ("NULL", None), ("~", None), ("true", True), ("True", True), ("TRUE", True), ("false", False), ("False", False), ("FALSE", False),
         ("0", 0), ("-1", -1), ("+7", 7), ("007", 7), ("-012", -12), ("0x1F", 31), ("0xff", 255), ("0o17", 15), ("0o0", 0), ("1.5", 1.5), ("-.5", -.5), (".25", .25), ("3.", 3.0), ("+1.0", 1.0),
         ("1e3", 1000.0), ("1.5E-3", .0015), ("-2e+2", -200.0), ("00.5", .5), ("9223372036854775807", 2**63 - 1), ("-9223372036854775808", -2**63), ("18446744073709551615", 2**64 - 1),
         ("yes", "yes"), ("no", "no"), ("on", "on"), ("off", "off"), ("TRUEish", "TRUEish"), ("notFALSE", "notFALSE"), ("tRUE", "tRUE"), ("nULL", "nULL"), ("nullx", "nullx"), ("trueish", "trueish"), ("x.NaN", "x.NaN"), (".nano", ".nano"),
         ("x.NAN", "x.NAN"), ("1_000", "1_000"), ("0x", "0x"), ("0xG", "0xG"), ("0o8", "0o8"), ("1.2.3", "1.2.3"), ("12:30", "12:30"), ("12:30:45", "12:30:45"), ("1e", "1e"), ("e5", "e5"), ("+", "+"), ("--1", "--1"), (".", "."), ("..", ".."),
         ("2023-13-45", "2023-13-45"), ("2023-1-5", "2023-1-5"), ("2023-02-30", "2023-02-30"), ("20230115", 20230115), ("2023-01-15T25:00:00Z", "2023-01-15T25:00:00Z"), ("v2023-01-15", "v2023-01-15"), ("2023-01-15x", "2023-01-15x"),
         ("hello", "hello"), ("two words", "two words"), ("a:b", "a:b"), ("a#b", "a#b"), ("it's", "it's"), ("é日", "é日"), ("x-y", "x-y"), ("a/b", "a/b"), ("<<x", "<<x"), ("=", "="), ("a\\nb", "a\\nb"), ("1 2", "1 2"), ("0b11", "0b11"), ("1,5", "1,5"), ("inf", "inf"), ("nan", "nan"), ("NaN", "NaN"), ("Infinity", "Infinity")]
TAGGED = [("!!str 5", "5"), ("!!str true", "true"), ("!!str null", "null"), ("!!str 2020-01-01", "2020-01-01"), ('!!int "5"', 5), ("!!float 5", 5), ('!!bool "true"', True), ("!!bool FALSE", False), ("!!null ''", None), ("!foo 5", "5"), ("!bar-baz text here", "text here"), ('!x "q"', "q"), ("!foo true", "true"), ("!!str ~", "~")]


def yq(r, s):
    """Quoted YAML scalar."""
    if "'" not in s and "\n" not in s and "\r" not in s and not any(ord(c) < 32 or ord(c) in (0x7f, 0x85, 0xa0, 0x2028, 0x2029, 0xfeff) for c in s) and r.random() < .5 and s:
        return "'%s'" % s
    if "\n" not in s and "\r" not in s and "'" in s and all(32 <= ord(c) < 127 for c in s) and r.random() < .3:
        return "'%s'" % s.replace("'", "''")
    return jstr(random.Random(0), s).replace("\\/", "/")


def yaml_scalar(r, flow=False):
    """(text, import value, data-only value)"""
    k = r.random()
    if k < .5:
        t, v = r.choice(PLAIN)
        if flow and any(c in t for c in ",[]{}"):
            return yaml_scalar(r, flow)
        return t, v, v
    if k < .6:
        t, v = yaml_stamp(r)
        return t, v, t
    if k < .7:
        t, v = r.choice(TAGGED)
        return t, v, v
    v = text(r)
    return yq(r, v), v, v


def yaml_doc(r):
    """(text, import value, data-only value)"""
    anchors = []  # (name, import value, data value, is_map)
    cnt = [0]

    def maybe_anchor(v, w):
        if r.random() < .2:
            cnt[0] += 1
            n = "a%d" % cnt[0]
            anchors.append((n, v, w))
            return "&%s " % n
        return ""

    def mkkey(used):
        while True:
            k = key(r, .15)
            if k not in used:
                used.add(k)
                break
        plain = k.replace("-", "").replace("_", "").isalnum() and k.isascii() and k[0].isalpha()
        return (k if plain and r.random() < .8 else yq(r, k)), k

    def flow(d):
        a = r.random()
        if d > 0 and a < .4:
            xs = [flow(d - 1) for _ in range(r.randint(0, 3))]
            return "[%s]" % r.choice([", ", ","]).join(x[0] for x in xs), [x[1] for x in xs], [x[2] for x in xs]
        if d > 0 and a < .7:
            used, parts, v, w = set(), [], {}, {}
            for _ in range(r.randint(0, 3)):
                kt, k = mkkey(used)
                t, x, y = flow(d - 1)
                parts.append("%s: %s" % (kt, t))
                v[k], w[k] = x, y
            return "{%s}" % ", ".join(parts), v, w
        return yaml_scalar(r, True)

    def node(d, ind):
        """Text that follows `key:` or `-`: starts with ' ' or a newline."""
        a = r.random()
        pad = "  " * ind
        if anchors and a < .12:
            n, v, w = r.choice(anchors)
            return " *" + n + "\n", v, w
        if d > 0 and a < .4:
            anc = []
            body, v, w = mapping(d - 1, ind)
            if not v:
                return " {}\n", v, w
            m = maybe_anchor(v, w)
            return (" " + m.rstrip() if m else "") + "\n" + body, v, w
        if d > 0 and a < .6:
            parts, v, w = [], [], []
            for _ in range(r.randint(1, 3)):
                t, x, y = node(d - 1, ind + 1)
                parts.append(pad + "-" + t)
                v.append(x)
                w.append(y)
            m = maybe_anchor(v, w)
            return (" " + m.rstrip() if m else "") + "\n" + "".join(parts), v, w
        if a < .7:
            t, v, w = flow(d)
            m = maybe_anchor(v, w)
            return " " + m + t + "\n", v, w
        if a < .76:
            ls = [r.choice(["one", "two  three", "x: y", "# not a comment", "- item", "é"]) for _ in range(r.randint(1, 3))]
            return " |\n" + "".join(pad + "  " + x + "\n" for x in ls), "".join(x + "\n" for x in ls), "".join(x + "\n" for x in ls)
        if a < .8:
            ls = [r.choice(["one", "two three", "é"]) for _ in range(r.randint(1, 3))]
            return " >-\n" + "".join(pad + "  " + x + "\n" for x in ls), " ".join(ls), " ".join(ls)
        if a < .84:
            e, v = r.choice([("1 + 2", 3), ("[1, 2] ++ [3]", [1, 2, 3]), (":sym", Sym("sym")), ("{k9: 1}.k9", 1)])
            return " !eu %s\n" % (e if ":" not in e and "#" not in e and e[0] not in "[{\"" else "'%s'" % e), v, e
        t, v, w = yaml_scalar(r)
        m = maybe_anchor(v, w)
        if not t.startswith("!"):
            t = m + t
        elif m:
            anchors.pop()
        c = r.choice(["", "", "", "  # a comment"])
        return " " + t + c + "\n", v, w

    def mapping(d, ind):
        pad = "  " * ind
        used, parts, v, w = set(), [], {}, {}
        sib = None
        n = r.choice([1, 2, 3, 4]) if ind else r.choice([0, 1, 2, 4, 6])
        mpos = r.randrange(n) if n and r.random() < .35 else -1
        for i in range(n):
            if i == mpos:
                maps = [x for x in anchors if isinstance(x[1], dict)]
                if maps:
                    pick = [r.choice(maps) for _ in range(r.choice([1, 1, 2]))]
                    many = len(pick) > 1 or r.random() < .2
                    parts.append("%s<<: %s\n" % (pad, "[%s]" % ", ".join("*" + x[0] for x in pick) if many else "*" + pick[0][0]))
                    allv, allw = {}, {}
                    for x in pick:
                        for kk, vv in x[1].items():
                            allv.pop(kk, None)
                            allv[kk] = vv
                            allw.pop(kk, None)
                            allw[kk] = x[2][kk]
                    for kk in allv:
                        if kk not in v:
                            v[kk], w[kk] = allv[kk], allw[kk]
                    continue
            kt, k = mkkey(used)
            t, x, y = node(d, ind + 1)
            parts.append("%s%s:%s" % (pad, kt, t))
            # an explicit key takes precedence over a merged one
            v.pop(k, None)
            w.pop(k, None)
            v[k], w[k] = x, y
            if r.random() < .08:
                parts.append(pad + "# note\n" if r.random() < .5 else "\n")
        return "".join(parts), v, w

    a = r.random()
    if a < .75:
        t, v, w = mapping(3, 0)
        if not v:
            t = "{}\n"
    elif a < .9:
        t, v, w = node(3, 0)
        t = t.lstrip(" ").lstrip("\n") if not t.startswith("\n") else t[1:]
        if t.startswith(("|", ">")):
            return yaml_doc(r)
    else:
        t, v, w = flow(3)
        t += "\n"
    if r.random() < .2:
        t = "---\n" + t
    if r.random() < .1:
        t = "# head\n" + t
    return t, v, w


# -- TOML ---------------------------------------------------------------------
def tstr(r, s):
    k = r.random()
    if k < .2 and "'" not in s and not any(ord(c) < 32 or ord(c) == 127 for c in s):
        return "'%s'" % s
    if k < .3 and "\r" not in s and '"' not in s and "\\" not in s and not any(ord(c) < 32 and c != "\n" or ord(c) == 127 for c in s):
        return '"""\n%s"""' % s
    return tbasic(s)


def tbasic(s):
    out = []
    for c in s:
        o = ord(c)
        out.append({'"': '\\"', "\\": "\\\\", "\n": "\\n", "\t": "\\t", "\r": "\\r"}.get(c) or ("\\u%04x" % o if o < 32 or o == 127 else c))
    return '"%s"' % "".join(out)


def tkey(r, k):
    if k and all(c.isascii() and (c.isalnum() or c in "-_") for c in k):
        return k if r.random() < .9 else tbasic(k)
    return tbasic(k)


def tval(r, d):
    k = r.random()
    if d > 0 and k < .2:
        xs = [tval(r, d - 1) for _ in range(r.randint(0, 3))]
        return "[%s]" % r.choice([", ", ",\n  "]).join(xs)
    if d > 0 and k < .3:
        used = {}
        for _ in range(r.randint(0, 3)):
            used[key(r)] = tval(r, d - 1).replace(",\n  ", ", ")
        if any("\n" in x for x in used.values()):
            return tval(r, 0)
        return "{ %s }" % ", ".join("%s = %s" % (tkey(r, a), b) for a, b in used.items())
    k = r.random()
    if k < .3:
        return tstr(r, text(r).replace("\ufeff", ""))
    if k < .55:
        i = integer(r)
        return r.choice([str(i)] * 4 + ["0x%x" % abs(i) if abs(i) < 2**63 else str(i), "0b101", "0o17", "1_000", "+5"])
    if k < .75:
        f = floating(r)
        s = repr(f)
        return r.choice([s, s, "1e3", "-2.5E-3", "3.0", "1_0.5"])
    if k < .85:
        return r.choice(["true", "false"])
    y, mo, d, h, mi, s = dtime(r)
    day = "%04d-%02d-%02d" % (max(y, 1), mo, d)
    t = "%02d:%02d:%02d" % (h, mi, s)
    return r.choice([day, day + "T" + t, day + "T" + t + "Z", day + "T" + t + "+05:30", day + "T" + t + ".5-08:00"])


def toml_doc(r):
    """(text, import value, data-only value): the reader in the standard library is the oracle."""
    lines = []
    used = set()

    def entries(n):
        seen = set()
        for _ in range(n):
            k = key(r)
            if k in seen:
                continue
            seen.add(k)
            lines.append("%s = %s%s" % (tkey(r, k), tval(r, 2), r.choice(["", "", " # c"])))
        return seen
    top = entries(r.randint(0, 4))
    for i in range(r.randint(0, 3)):
        k = "t%d" % i
        if k in top:
            continue
        if r.random() < .35:
            for _ in range(r.randint(1, 3)):
                lines.append("[[%s]]" % k)
                entries(r.randint(0, 2))
                if r.random() < .3:
                    lines.append("[%s.sub9]" % k)
                    entries(r.randint(0, 2))
        else:
            lines.append("[%s]" % (k + r.choice(["", "", ".u9", '."x y9".v'])))
            entries(r.randint(0, 3))
    t = "\n".join(lines) + "\n"
    try:
        v = tomllib.loads(t)
    except Exception:
        return toml_doc(r)

    def conv(v, data):
        if isinstance(v, dict):
            return {k: conv(x, data) for k, x in v.items()}
        if isinstance(v, list):
            return [conv(x, data) for x in v]
        if isinstance(v, datetime.datetime):
            if data:
                return Pat(v)
            return stamp(v if v.tzinfo else v.replace(tzinfo=datetime.timezone.utc))
        if isinstance(v, datetime.date):
            if data:
                return v.isoformat()
            return stamp(datetime.datetime(v.year, v.month, v.day, tzinfo=datetime.timezone.utc))
        return v
    return t, conv(v, False), conv(v, True)


class Pat:
    """Text that spells a given date-time (data-only readings keep the spelling)."""

    def __init__(self, d):
        self.d = d

    def ok(self, s):
        try:
            return isinstance(s, str) and datetime.datetime.fromisoformat(s) == self.d
        except ValueError:
            return False

    def __repr__(self):
        return "text of %s" % self.d.isoformat()


# -- CSV, text, JSON Lines, XML, EDN -------------------------------------------
def csv_doc(r):
    n = r.randint(1, 5)
    heads = []
    while len(heads) < n:
        h = key(r)
        if h not in heads:
            heads.append(h)
    rows = [[r.choice(TEXTS[:60]) if r.random() < .7 else str(integer(r)) for _ in heads] for _ in range(r.choice([0, 1, 2, 3, 8]))]
    nl = r.choice(["\n", "\n", "\r\n"])

    def cell(s, single):
        if any(c in s for c in ',"\n\r') or (single and s == "") or s.startswith("\ufeff") or r.random() < .1:
            return '"%s"' % s.replace('"', '""')
        return s
    t = nl.join(",".join(cell(x, n == 1) for x in row) for row in [heads] + rows) + r.choice([nl, ""])
    v = [dict(zip(heads, row)) for row in rows]
    if rows == [] and not t.strip("\r\n"):
        return csv_doc(r)
    return t, v, v


def text_doc(r):
    ls = ["".join(c for c in text(r) if c not in "\r\n") for _ in range(r.choice([0, 1, 2, 5, 20]))]
    if ls and ls[0].startswith("\ufeff"):
        ls[0] = "q"
    nl = r.choice(["\n", "\n", "\r\n"])
    t = nl.join(ls) + (nl if r.random() < .6 else "")
    v = t.split("\n")
    if v and v[-1] == "":
        v.pop()
    v = [x[:-1] if x.endswith("\r") else x for x in v]
    return t, v, v


def jsonl_doc(r):
    vs = [value(r, 2) for _ in range(r.choice([0, 1, 2, 5, 12]))]
    out = []
    for v in vs:
        out.append(json_text(r, v, ("", "")))
        if r.random() < .15:
            out.append(r.choice(["", "   "]))
    t = "\n".join(out) + (r.choice(["\n", ""]) if out else "")
    return t, vs, vs


XN = ["a", "b", "item", "x-y", "Név", "_u", "n1", "data"]


def xesc(r, s, attr=False):
    out = []
    for c in s:
        if c in "<&" or (attr and c == '"'):
            out.append(r.choice({"<": ["&lt;", "&#60;", "&#x3c;"], "&": ["&amp;", "&#38;"], '"': ["&quot;", "&#34;"]}[c]))
        elif c == ">" :
            out.append(r.choice(["&gt;", "&#62;"]) if r.random() < .5 or s.count("]]") else ">")
        elif c in "\n\t" and attr:
            out.append("&#%d;" % ord(c))
        elif c == "'":
            out.append(r.choice(["'", "&apos;"]))
        elif r.random() < .02:
            out.append("&#%d;" % ord(c))
        else:
            out.append(c)
    return "".join(out)


def xtext(r):
    while True:
        s = text(r)
        if not any(ord(c) < 32 and c not in "\n\t" or ord(c) in (0x7f, 0xfeff) for c in s) and len(s) < 200:
            return s


WS = " \t\n\x0b\x0c\r\x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"


def xml_doc(r):
    def el(d):
        n = r.choice(XN)
        attrs = {}
        for _ in range(r.choice([0, 0, 1, 2])):
            attrs[r.choice(XN) + str(r.randrange(3))] = xtext(r)
        at = "".join(" %s=\"%s\"" % (k, xesc(r, v, True)) for k, v in attrs.items())
        if r.random() < .2:
            return "<%s%s%s/>" % (n, at, r.choice(["", " "])), [Sym(n), attrs]
        out, items, run = [], [], []

        def flush():
            s = "".join(run).strip(WS)
            run.clear()
            if s:
                items.append(s)
        for _ in range(r.choice([0, 1, 2, 3, 5])):
            k = r.random()
            if k < .4 and d > 0:
                flush()
                t, v = el(d - 1)
                out.append(t)
                items.append(v)
            elif k < .75:
                s = xtext(r)
                out.append(xesc(r, s))
                run.append(s)
            elif k < .85:
                s = xtext(r).replace("]]>", "]]")
                out.append("<![CDATA[%s]]>" % s)
                run.append(s)
            elif k < .92:
                out.append("<!-- c <x> & -->")
            else:
                out.append("\n   ")
                run.append("\n   ")
        flush()
        return "<%s%s>%s</%s%s>" % (n, at, "".join(out), n, r.choice(["", " "])), [Sym(n), attrs] + items
    t, v = el(3)
    if r.random() < .3:
        t = '<?xml version="1.0" encoding="UTF-8"?>\n' + t
    elif r.random() < .2:
        t = "<!-- top -->\n" + t
    if r.random() < .3:
        t += r.choice(["\n", "\n<!-- end -->\n", "  "])
    return t, v, v


class Bag(list):
    """A list whose order the format does not define."""


def edn_str(s):
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", r"\n").replace("\t", r"\t").replace("\r", r"\r")


def edn_doc(r):
    """Maps and sets are unordered: values compare with blocks as dicts (see euv.checks.c20)."""
    D = datetime.datetime

    def go(d):
        k = r.random()
        if d > 0 and k < .25:
            xs = [go(d - 1) for _ in range(r.randint(0, 4))]
            o, c = r.choice(["[]", "()"])
            return o + r.choice([" ", ", "]).join(x[0] for x in xs) + c, [x[1] for x in xs], [x[2] for x in xs]
        if d > 0 and k < .5:
            parts, v, w = [], {}, {}
            for _ in range(r.randint(0, 4)):
                kk = r.choice(KEYS[:12]) + r.choice(["", "2", "?", "!"])
                ns = r.choice(["", "", "", "ns/", "a.b/"])
                if ns + kk in v or kk in v:
                    continue
                t, x, y = go(d - 1)
                spell = r.choice([":" + ns + kk, ":" + ns + kk, edn_str(ns + kk), ns + kk])
                parts.append(spell + " " + t)
                v[ns + kk], w[ns + kk] = x, y
            return "{%s}" % r.choice([", ", " "]).join(parts), v, w
        if d > 0 and k < .55:
            xs = sorted({r.randint(0, 50) for _ in range(r.randint(0, 4))})
            ys = xs[:]
            r.shuffle(ys)
            return "#{%s}" % " ".join(map(str, ys)), Bag(xs), Bag(xs)
        k = r.random()
        if k < .25:
            s = text(r)
            s = "".join(c for c in s if ord(c) >= 32 or c in "\n\t\r")
            return edn_str(s), s, s
        if k < .4:
            i = integer(r)
            return str(i) + (r.choice(["", "", "", "N"]) if i else ""), i, i
        if k < .5:
            f = r.choice([0.5, -2.25, 1.5e-7, 0.1, 1e21, -3.75, r.uniform(-100, 100)])
            return repr(f), f, f
        if k < .6:
            return r.choice([("true", True, True), ("false", False, False), ("nil", None, None)])
        if k < .7:
            n = r.choice(["kw", "a-b", "ns/kw", "x?", "é", "a.b"])
            return ":" + n, Sym(n), Sym(n)
        if k < .75:
            n = r.choice(["sym", "my/sym", "->x", "+"])
            return n, Sym(n), Sym(n)
        if k < .85:
            return r.choice([("\\a", "a", "a"), ("\\newline", "\n", "\n"), ("\\space", " ", " "), ("\\é", "é", "é"), ("\\u0041", "A", "A"), ("\\tab", "\t", "\t")])
        if k < .92:
            y, mo, d, h, mi, s = dtime(r)
            y = max(y, 1000)
            x = D(y, mo, d, h, mi, s, tzinfo=datetime.timezone.utc)
            return '#inst "%sZ"' % x.isoformat().replace("+00:00", ""), stamp(x), Pat(x)
        if k < .96:
            return '#uuid "f81d4fae-7dec-11d0-a765-00a0c91e6bf6"', "f81d4fae-7dec-11d0-a765-00a0c91e6bf6", "f81d4fae-7dec-11d0-a765-00a0c91e6bf6"
        t, x, y = go(0)
        if t.startswith("#"):
            return t, x, y
        return "#my/tag " + t, x, y
    t, v, w = go(3)
    if r.random() < .15:
        t = "; comment\n" + t
    if r.random() < .1:
        t2, v2, w2 = go(1)
        return t + "\n" + t2 + "\n", [v, v2], [w, w2]
    return t, v, w


def json_doc(r):
    v = value(r, 4)
    t = json_text(r, v)
    return t, v, v


GEN = {"json": json_doc, "yaml": yaml_doc, "toml": toml_doc, "csv": csv_doc, "text": text_doc, "jsonl": jsonl_doc, "xml": xml_doc, "edn": edn_doc}
EXT = {"json": ["json"], "yaml": ["yaml", "yml"], "toml": ["toml"], "csv": ["csv"], "text": ["txt"], "jsonl": ["jsonl"], "xml": [], "edn": ["edn"]}
BAD = {
    "json": ["[1,2", '{"a":', '{"a" 1}', '{"a":1}}', '[1]]', '"abc', '{"a":1', '{"a":1} {"b":2}', '["\\q"]', '["\\u12"]', '[1', '{,}', '[}', '{]'],
    "yaml": ["a: [1", "a: {b: 1", "a: 'x", 'a: "x', "a: *nope", "a: b: c", "- a\nb: 1", "a: 1\n  b: 2", "<<: 5", "<<: [1]", "a: !!int x", "a: !!float abc", "a: !!bool maybe", "a: .inf", "a: -.inf", "a: .nan", "? [a]\n: 1", "a: !eu '1 +'", "a: !eu ']'", "a: &x\n  b: *y"],
    "toml": ["a = ", "a 1", "[t", "a = 1\na = 2", "[t]\n[t]", "a = [1", "a = 'x", "a = {b = 1", "= 1", "a = 1 2", "a = inf", "a = nan", "a = 0x", "a.b = 1\na = 2", "a = 1979-13-01", "a = 99999999999999999999"],
    "csv": ["a,b\n1\n", "a,b\n1,2,3\n", "a\n1\n2,3\n", "a,b\n1,2\n\"3"],
    "jsonl": ['{"a":1}\n{"a":\n', "[1]\n[2\n", '1\n"x\n', "{}\n}\n"],
    "xml": ["<a>", "", "abc", "<a></b>", "<a/><b/>", "<a/>x", "x<a/>", "<a><b></a></b>", "<a>&nope;</a>", '<a x="1" x="2"/>', "<a x=1/>", "<a", "<a><![CDATA[x</a>", "<a><!-- x</a>", "</a>", "  \n ", "<!-- only -->", "<a>&#xD800;</a>", "<a></a></a>", '<a x="&nope;"/>'],
    "edn": ["[1", "{:a 1 :b}", "{:a 1 :a 2}", "(1 2]", '"abc', "#{1 1}", "", "1 }", "[1M]", "{1 2}", "{[1] 2}", "\\nope", ":", "99999999999999999999N", "#inst \"nope\""],
    "nosuch": ["x"],
}
