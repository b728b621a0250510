"""Values shared by generators and models: Python None/bool/int/float/str/list/dict plus
Sym and Dt. to_eu spells a value as eucalypt source; to_json is its JSON rendering."""
import json, random
from . import num as N


class Sym(str):
    """A symbol; never equal to the plain string of the same text."""
    __slots__ = ()

    def __eq__(self, o):
        return isinstance(o, Sym) and str.__eq__(self, o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("sym", str(self)))

    def __repr__(self):
        return "Sym(%s)" % str.__repr__(self)

    def name(self):
        return str.__str__(self)


PLAIN_KEY = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_?!")
RESERVED = {"true", "false", "null", "if", "then", "not", "and", "or"}


def plain_key(k):
    return bool(k) and k[0].isalpha() and k[0].isascii() and all(c in PLAIN_KEY for c in k) and k not in ("c", "r", "t", "s")


def key(k):
    k = str.__str__(k)
    if plain_key(k):
        return k
    if "'" in k:
        raise ValueError("key with quote")
    return "'%s'" % k


def sym(k):
    return ":" + key(k)


ESC = {"\n": "\\n", "\t": "\\t", "\r": "\\r", "\\": "\\\\", '"': '\\"', "{": "\\{", "}": "\\}"}


def cstr(s):
    out = []
    for c in s:
        if c in ESC:
            out.append(ESC[c])
        elif ord(c) < 32 or ord(c) == 127:
            out.append("\\x%02x" % ord(c))
        else:
            out.append(c)
    return 'c"%s"' % "".join(out)


def strlit(s, r=None):
    plain_ok = '"' not in s and not any(ord(c) < 32 or ord(c) == 127 or c in "\u0085\u2028\u2029\ufeff" for c in s)
    if plain_ok and (r is None or r.random() < .7):
        b = s.replace("{", "{{").replace("}", "}}")
        return ('r"%s"' if r is not None and r.random() < .2 else '"%s"') % b
    return cstr(s)


def to_eu(v, r=None):
    if v is None:
        return "null"
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, float)):
        return N.lit(v)
    if isinstance(v, Sym):
        return sym(v)
    if isinstance(v, str):
        return strlit(v, r)
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(to_eu(x, r) for x in v) + "]"
    if isinstance(v, dict):
        sep = ", " if r is None or r.random() < .6 else " "
        return "{" + sep.join("%s: %s" % (key(k), to_eu(x, r)) for k, x in v.items()) + "}"
    if hasattr(v, "to_eu"):
        return v.to_eu()
    raise TypeError(v)


def to_json(v):
    """Expected JSON data: symbols render as strings."""
    if isinstance(v, Sym):
        return v.name()
    if isinstance(v, (list, tuple)):
        return [to_json(x) for x in v]
    if isinstance(v, dict):
        return {str.__str__(k): to_json(x) for k, x in v.items()}
    if hasattr(v, "to_json"):
        return v.to_json()
    return v


def veq(a, b):
    """Eucalypt equality: structural; numbers by value; types otherwise apart."""
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    an, bn = isinstance(a, (int, float)), isinstance(b, (int, float))
    if an or bn:
        return an and bn and a == b
    if isinstance(a, Sym) or isinstance(b, Sym):
        return isinstance(a, Sym) and isinstance(b, Sym) and str.__eq__(a, b)
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and all(map(veq, a, b))
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and len(a) == len(b) and all(
            str.__eq__(k, l) and veq(x, y) for (k, x), (l, y) in zip(a.items(), b.items()))
    return a == b


WORDS = ["a", "b", "x", "key", "foo", "bar", "name", "zed", "alpha", "beta-2", "is-ok?", "x1", "long_name", "Upper"]
CHARS = list("abcxyzABC019 _-.,:;/\\'!?@#$%^&*()[]<>=+|~`") + ["{", "}", '"', "\n", "\t", "é", "ß", "Ω", "日", "本",
        "😀", "\u0301", "İ", "ﬁ", "\u00a0", "\u200d", "𝒳", "\x7f", "\x01", "\r", "\u2028"]
STRINGS = ["", " ", "a", "hello", "true", "null", "123", "-1.5", "~", "no", "yes", "a b", "a: b", "# x", "- x", "é", "日本語",
           "😀", "{x}", "{{}}", '"', "\\", "\\n", "\n", "a\nb", "\t", "'", "1e3", "0x1f", "2020-01-01", "[]", "{}", "<a&b>", "a,b",
           "*", "&x", "!t", "|", ">", "%", "@", "`", "Null", "TRUE", ".5", "1_000", " lead", "trail ", "ünï", "e\u0301"]


def gen_str(r, simple=False):
    k = r.random()
    if k < .3:
        return r.choice(STRINGS) if not simple else r.choice(WORDS)
    if k < .55:
        return r.choice(WORDS)
    cs = CHARS if not simple else list("abcdeXYZ012 _-")
    return "".join(r.choice(cs) for _ in range(r.choice([1, 2, 3, 5, 8, 20])))


def gen_key(r, weird=.2):
    if r.random() < weird:
        s = gen_str(r)
        if s and s not in RESERVED and "'" not in s and not any(ord(c) < 32 or c in "\u2028\u2029\x7f" for c in s):
            return s
    return r.choice(WORDS)


def gen_scalar(r, sym_ok=True):
    k = r.randrange(12)
    if k < 4:
        return r.randint(-20, 20) if k < 2 else N.gen_int(r)
    if k == 4:
        f = N.gen_float(r)
        return f if f != 0 else 0.0
    if k < 8:
        return gen_str(r)
    if k == 8:
        return r.random() < .5
    if k == 9:
        return None
    if k == 10 and sym_ok:
        return Sym(r.choice(WORDS))
    return r.choice(WORDS)


def gen_block(r, d, n=None, weird=.1, **kw):
    return {gen_key(r, weird): gen(r, d - 1, **kw) for _ in range(n if n is not None else r.choice([0, 1, 2, 3, 4, 6]))}


def gen(r, d=3, **kw):
    k = r.random()
    if d <= 0 or k < .45:
        return gen_scalar(r, **kw)
    if k < .72:
        return [gen(r, d - 1, **kw) for _ in range(r.choice([0, 1, 2, 3, 5]))]
    return gen_block(r, d, **kw)


import datetime as _dt


class Dt:
    """A zoned date-time; equality and order follow the instant."""

    def __init__(self, d):
        self.d = d

    def to_eu(self):
        d = self.d
        off = d.strftime("%z")
        fr = (".%06d" % d.microsecond).rstrip("0") if d.microsecond else ""
        z = "Z" if off == "+0000" else off[:3] + ":" + off[3:]
        return 't"%04d-%02d-%02dT%02d:%02d:%02d%s%s"' % (d.year, d.month, d.day, d.hour, d.minute, d.second, fr, z)

    def __eq__(self, o):
        return isinstance(o, Dt) and self.d == o.d

    def __lt__(self, o):
        return self.d < o.d

    def __hash__(self):
        return hash(self.d)

    def __repr__(self):
        return "Dt(%s)" % self.d.isoformat()


def gen_dt(r):
    if r.random() < .2:
        return Dt(_dt.datetime(2024, 2, 29, 12, 0, 0, tzinfo=_dt.timezone.utc))
    off = r.choice([0, 0, 60, -60, 330, -300, 345, 840, -720])
    base = _dt.datetime(r.choice([1, 1583, 1900, 1969, 1970, 1999, 2000, 2023, 2024, 2024, 2024, 9998]), r.randint(1, 12), r.randint(1, 28),
                        r.randint(0, 23), r.randint(0, 59), r.randint(0, 59),
                        r.choice([0, 0, 0, 500000, 123456]), tzinfo=_dt.timezone(_dt.timedelta(minutes=off)))
    return Dt(base)


def lz(v, r, p=.35):
    """Source for v in which scalars are often the results of computations (values behind
    thunks and lazily filled boxes) rather than literals."""
    if isinstance(v, dict):
        return "{" + ", ".join("%s: %s" % (key(k), lz(x, r, p)) for k, x in v.items()) + "}"
    if isinstance(v, (list, tuple)) and not isinstance(v, Dt):
        return "[" + ", ".join(lz(x, r, p) for x in v) + "]"
    t = to_eu(v, r)
    if r.random() >= p:
        return t
    k = r.randrange(8)
    if k == 0:
        return "identity(%s)" % t
    if k == 1:
        return "head([%s])" % t
    if k == 2:
        return "if(%s, %s, null)" % (r.choice(["true", "1 < 2"]), t)
    if isinstance(v, Sym):
        s = strlit(v.name(), r)
        return r.choice(["sym(%s)" % s, "sym(str.of(%s))" % t, "head(keys(block([[%s, 1]])))" % t])
    if isinstance(v, str):
        i = r.randint(0, len(v))
        return r.choice(["str.join([%s, %s], %s)" % (strlit(v[:i], r), strlit(v[i:], r), '""'),
                         "str.of(%s)" % t, "str.base64-decode(str.base64-encode(%s))" % t,
                         "str.join(str.letters(%s), str.trim(\" \"))" % t,
                         "str.suffix(%s, %s)" % (strlit(v[i:], r), strlit(v[:i], r))])
    if isinstance(v, bool):
        return r.choice(["not(not(%s))" % t, "(%s = true)" % t])
    if isinstance(v, int):
        if abs(v) < 2**62:
            return r.choice(["(%d + %d)" % (v - 5, 5), 'num("%d")' % v if v >= 0 else "(%d * 1)" % v, "floor(%d)" % v if v >= 0 else "(%d - 0)" % v,
                             "(%d - %d)" % (v + 7, 7) if v + 7 >= 0 else t])
        return t
    if isinstance(v, float):
        return "(%s * 1)" % t if v == v and abs(v) < 1e300 else t
    if isinstance(v, Dt):
        return "cal.parse(%s)" % t[1:]
    return "head([%s])" % t
