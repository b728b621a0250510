"""C21: rendered output is valid and carries the data."""
import datetime, re, tomllib, yaml
import threading
from html.parser import HTMLParser
from ..core import *
from .. import docs as D
from .. import num as N
from ..val import cstr, strlit, Sym, plain_key

SIG_EDN = "edn float of 2^63 or more"


class Tag:
    """A value that carries a YAML tag."""

    def __init__(self, tag, v):
        self.tag, self.v = tag, v


class Gone:
    """A value that is not rendered."""

    def __init__(self, v):
        self.v = v


class Key(int):
    """A key that is a number."""


def bare(v):
    """The value without tags and suppressed parts."""
    if isinstance(v, Tag):
        return bare(v.v)
    if isinstance(v, dict):
        return {k: bare(x) for k, x in v.items() if not isinstance(x, Gone)}
    if isinstance(v, list):
        return [bare(x) for x in v if not isinstance(x, Gone)]
    return v


def tags(v):
    """The same with tags kept."""
    if isinstance(v, Tag):
        return Tag(v.tag, tags(v.v))
    if isinstance(v, dict):
        return {k: tags(x) for k, x in v.items() if not isinstance(x, Gone)}
    if isinstance(v, list):
        return [tags(x) for x in v if not isinstance(x, Gone)]
    return v


def has(v, p):
    if p(v):
        return True
    if isinstance(v, dict):
        return any(p(k) or has(x, p) for k, x in v.items())
    if isinstance(v, list):
        return any(has(x, p) for x in v)
    return False


def isnum(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


# -- generation ---------------------------------------------------------------
def key(r, odd):
    k = D.key(r, .2 if odd else .05)
    return k


def gen(r, d, odd):
    k = r.random()
    if d > 0 and k < .3:
        v = [gen(r, d - 1, odd) for _ in range(r.choice([0, 1, 2, 3, 5]))]
    elif d > 0 and k < .65:
        v = {}
        for _ in range(r.choice([0, 1, 2, 3, 4, 6])):
            v[key(r, odd)] = gen(r, d - 1, odd)
    else:
        k = r.random()
        if k < .3:
            v = D.text(r)
        elif k < .4:
            v = Sym(r.choice(D.KEYS + (D.WEIRD if odd else []) + ["ns/name", "a.b", "true", "x-1"]))
        elif k < .6:
            v = D.integer(r) if r.random() < .95 or not odd else r.choice([2**63, 2**64 - 1])
        elif k < .75:
            v = D.floating(r)
        elif k < .83:
            y, mo, dd, h, mi, s = D.dtime(r)
            us = r.choice([0, 0, 500000, 123000, 1, 123456])
            tz = datetime.timezone(datetime.timedelta(minutes=r.choice([0, 0, 60, -300, 330, 845, -720])))
            try:
                dt = datetime.datetime(max(2, min(y, 9998)), mo, dd, h, mi, s, us, tz)
            except ValueError:
                dt = datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc)
            v = D.stamp(dt)
            v.dt = dt
        else:
            v = r.choice([True, False] + [None] * (3 if odd else 1))
    k = r.random()
    if k < .06 and not (v is None or isinstance(v, bool)):
        return Tag("!" + r.choice(["x", "Ref", "Fn-1", "a.b"]), v)
    if k < .09:
        return Gone(v)
    return v


def spell(r, v, top=True):
    """An expression of the value, literal or computed."""
    if isinstance(v, Tag):
        t = r.choice(['"%s"' % v.tag, '"%s"' % v.tag, 'str.join-on("", ["!", "%s"])' % v.tag[1:]])
        return "(%s // { tag: %s })" % (spell(r, v.v, False), t)
    if isinstance(v, Gone):
        return "(%s // %s)" % (spell(r, v.v, False), r.choice(["{ export: :suppress }", ":suppress", "{ export: :internal }"][:1] + ["{ export: :internal }"]))
    if isinstance(v, D.Stamp):
        t = v.dt.isoformat()
        e = 't"%s"' % t
        return e if r.random() < .8 else "(%s identity)" % e
    if isinstance(v, Sym):
        n = v.name()
        if "'" not in n and "\n" not in n and r.random() < .8:
            return ":" + (n if plain_key(n) else "'%s'" % n)
        return "(%s sym)" % cstr(n)
    if isinstance(v, str):
        e = strlit(v, r)
        k = r.random()
        if k < .1 and len(v) > 1 and "\r\n" not in v:
            m = r.randrange(1, len(v))
            return 'str.join-on("", [%s, %s])' % (cstr(v[:m]), cstr(v[m:]))
        if k < .15:
            return "([%s] head)" % e
        return e
    if v is None or isinstance(v, bool):
        e = {None: "null", True: "true", False: "false"}[v]
        return e if r.random() < .8 else "([%s] head)" % e
    if isinstance(v, (int, float)):
        e = N.lit(v)
        if isinstance(v, int) and -2**62 < v < 2**62 and r.random() < .2:
            return "(%s + 1)" % N.lit(v - 1)
        return e if r.random() < .9 else "([%s] head)" % e
    if isinstance(v, list):
        xs = [spell(r, x, False) for x in v]
        k = r.random()
        if k < .7 or not xs:
            return "[%s]" % ", ".join(xs)
        if k < .8:
            return "cons(%s, [%s])" % (xs[0], ", ".join(xs[1:]))
        if k < .9:
            m = r.randrange(len(xs))
            return "([%s] ++ [%s])" % (", ".join(xs[:m]), ", ".join(xs[m:]))
        return "([%s] map(identity))" % ", ".join(xs)
    items = list(v.items())

    def block(its):
        if all(isinstance(k, str) and "'" not in k and "\n" not in k for k, _ in its):
            # a name in a block shadows an outer one, so entries stay apart
            return "block([%s])" % ", ".join("[%s, %s]" % (kexpr(k), spell(r, x, False)) for k, x in its) if r.random() < .3 or not names_ok(its) else "{%s}" % ", ".join("%s: %s" % (k if plain_key(k) else "'%s'" % k, spell(r, x, False)) for k, x in its)
        return "block([%s])" % ", ".join("[%s, %s]" % (kexpr(k), spell(r, x, False)) for k, x in its)

    def kexpr(k):
        if isinstance(k, Key):
            return str(int(k))
        if "'" not in k and "\n" not in k:
            return ":" + (k if plain_key(k) else "'%s'" % k)
        return "(%s sym)" % cstr(k)
    k = r.random()
    if k < .75 or not items or any(isinstance(x, Key) for x in v):
        return block(items)
    if k < .85:
        m = r.randrange(len(items) + 1)
        return "(%s << %s)" % (block(items[:m]), block(items[m:]))
    if k < .93:
        return "(%s map-values(identity))" % block(items)
    return "merge-all([%s])" % ", ".join(block([i]) for i in items)


FREE = {"<<", "++", "//", "+", "null", "true", "false", "num", "str", "sym", "head", "map", "cons", "block", "identity", "merge-all", "map-values", "t"}


def names_ok(its):
    return not any(k in FREE for k, _ in its)


# -- readers ------------------------------------------------------------------
class Edn:
    """A reader of EDN."""

    def __init__(self, s):
        self.s, self.i = s, 0

    def ws(self):
        while self.i < len(self.s) and (self.s[self.i].isspace() or self.s[self.i] == ","):
            self.i += 1

    def value(self):
        self.ws()
        c = self.s[self.i]
        if c == '"':
            self.i += 1
            out = []
            while self.s[self.i] != '"':
                if self.s[self.i] == "\\":
                    self.i += 1
                    e = self.s[self.i]
                    if e == "u":
                        out.append(chr(int(self.s[self.i + 1:self.i + 5], 16)))
                        self.i += 4
                    else:
                        out.append({"n": "\n", "t": "\t", "r": "\r", '"': '"', "\\": "\\", "b": "\b", "f": "\f"}[e])
                else:
                    out.append(self.s[self.i])
                self.i += 1
            self.i += 1
            return "".join(out)
        if c == "[" or c == "(":
            self.i += 1
            out = []
            while True:
                self.ws()
                if self.s[self.i] == ("]" if c == "[" else ")"):
                    self.i += 1
                    return out
                out.append(self.value())
        if c == "{":
            self.i += 1
            out = {}
            while True:
                self.ws()
                if self.s[self.i] == "}":
                    self.i += 1
                    return out
                k = self.value()
                if k in out:
                    raise ValueError("repeated key")
                out[k] = self.value()
        j = self.i
        while j < len(self.s) and not self.s[j].isspace() and self.s[j] not in '[](){}",;':
            j += 1
        w = self.s[self.i:j]
        if not w:
            raise ValueError("no value at %d" % self.i)
        self.i = j
        if w in ("nil", "true", "false"):
            return {"nil": None, "true": True, "false": False}[w]
        if w == "#inst":
            t = self.value()
            return datetime.datetime.fromisoformat(t)
        if w[0] == ":" and len(w) > 1:
            if not re.fullmatch(r"[^\W\d][^\s\[\](){}\",;:'`~@^\\#]*|[*!_?$%&=<>/.+-][^\s\[\](){}\",;:'`~@^\\#]*", w[1:]):
                raise ValueError("keyword " + w)
            return Sym(w[1:])
        if re.fullmatch(r"[+-]?\d+N?", w):
            return int(w.rstrip("N"))
        if re.fullmatch(r"[+-]?\d+(\.\d*)?([eE][+-]?\d+)?M?", w):
            return float(w.rstrip("M"))
        raise ValueError("token " + w)

    def all(self):
        v = self.value()
        self.ws()
        if self.i != len(self.s):
            raise ValueError("text after the value: " + self.s[self.i:][:30])
        return v


NUMS = re.compile(r"[-+]?(\d+)\Z"), re.compile(r"[-+]?(\.\d+|\d+(\.\d*)?)([eE][-+]?\d+)?\Z")


class Plain(str):
    """A plain YAML scalar that is none of the core types."""


# PyYAML reads YAML 1.1, where these are line breaks; in YAML 1.2 they are characters like any other.
BREAKS = {0x2028: 0xF8F28, 0x2029: 0xF8F29, 0x85: 0xF8F85}
UNBREAKS = {v: k for k, v in BREAKS.items()}


def yaml_value(text):
    docs = list(yaml.compose_all(text.translate(BREAKS), Loader=yaml.SafeLoader))
    if len(docs) != 1:
        raise ValueError("%d documents" % len(docs))

    def go(n):
        std = n.tag.startswith("tag:yaml.org")
        if isinstance(n, yaml.ScalarNode):
            t = n.value.translate(UNBREAKS)
            if n.style is None:
                if t in ("", "~", "null", "Null", "NULL"):
                    v = None
                elif t in ("true", "false"):
                    v = t == "true"
                elif NUMS[0].match(t):
                    v = int(t)
                elif NUMS[1].match(t):
                    v = float(t)
                else:
                    v = Plain(t)
            else:
                v = t
        elif isinstance(n, yaml.SequenceNode):
            v = [go(x) for x in n.value]
        else:
            v = {}
            for k, x in n.value:
                k = go(k)
                if isinstance(k, Tag):
                    k = k.v
                if k in v:
                    raise ValueError("repeated key %r" % k)
                v[k] = go(x)
        return v if std else Tag(n.tag, v)
    return go(docs[0])


def alike(got, want, fmt):
    """Does what an independent reader makes of the output equal the value?"""
    if fmt == "yaml":
        gt = got.tag if isinstance(got, Tag) else None
        wt = want.tag if isinstance(want, Tag) else None
        if gt != wt:
            return False
        got = got.v if gt else got
        want = want.v if wt else want
    if isinstance(want, dict):
        if not isinstance(got, dict) or len(got) != len(want):
            return False
        if fmt in ("yaml",):
            return all(alike(gk, k, fmt) and alike(g, w, fmt) for (gk, g), (k, w) in zip(got.items(), want.items()))
        if fmt == "edn":
            out = {}
            for k, w in want.items():
                kk = Sym(k) if Sym(k) in got else k
                if kk not in got:
                    return False
                out[kk] = w
            return all(alike(got[k], w, fmt) for k, w in out.items())
        return all(str.__str__(k) in got and alike(got[str.__str__(k)], w, fmt) for k, w in want.items())
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(alike(g, w, fmt) for g, w in zip(got, want))
    if want is None or isinstance(want, bool):
        return got is want
    if isnum(want):
        if isinstance(want, float):
            return isnum(got) and float(got) == want
        return isnum(got) and got == want and not (fmt in ("json", "toml") and isinstance(got, float))
    if isinstance(want, D.Stamp):
        if fmt in ("toml", "edn"):
            return isinstance(got, datetime.datetime) and got == want.dt and got.utcoffset() == want.dt.utcoffset()
        return isinstance(got, str) and got == str(want)
    if isinstance(want, Sym):
        if fmt == "edn" and isinstance(got, Sym):
            return got == want
        return isinstance(got, str) and str.__str__(got) == want.name()
    return isinstance(got, str) and not isinstance(got, Sym) and str.__str__(got) == str(want)


def text_ok(out, v):
    """Text output is every scalar and key on a line of its own."""
    pos = 0

    def scalar(x):
        nonlocal pos
        if x is None:
            t = ""
        elif isinstance(x, bool):
            t = "true" if x else "false"
        elif isnum(x):
            e = out.find("\n", pos)
            if e < 0:
                return False
            w = out[pos:e]
            pos = e + 1
            return (w == str(x)) if isinstance(x, int) else float(w) == x and not re.search(r"[^0-9.eE+-]", w)
        else:
            t = str.__str__(x)
        if not out.startswith(t + "\n", pos):
            return False
        pos += len(t) + 1
        return True

    def go(x):
        if isinstance(x, dict):
            return all(scalar(k) and go(y) for k, y in x.items())
        if isinstance(x, list):
            return all(go(y) for y in x)
        return scalar(x)
    return go(v) and pos == len(out)


def refuses(fmt, v):
    """Can the format not hold the value? (the value without suppressed parts)"""
    oddkey = has(v, lambda x: isinstance(x, Key))
    if fmt == "toml":
        return not isinstance(v, dict) or oddkey or has(v, lambda x: x is None) or has(v, lambda x: isinstance(x, int) and not isinstance(x, (bool, Key)) and x > 2**63 - 1)
    if fmt == "yaml":
        return has(v, lambda x: isinstance(x, int) and not isinstance(x, bool) and x > 2**63 - 1)
    if fmt == "json":
        return oddkey
    if fmt == "eu":
        def quoted(x):
            return isinstance(x, Sym) and "'" in x.name()

        def go(x):
            if isinstance(x, dict):
                return any(isinstance(k, Key) or "'" in k or go(y) for k, y in x.items())
            if isinstance(x, list):
                return any(go(y) for y in x)
            return quoted(x)
        return go(v)
    return False


READ = {"json": json.loads, "yaml": yaml_value, "toml": tomllib.loads, "edn": lambda t: Edn(t).all()}
FORMATS = ["json", "yaml", "toml", "edn", "eu", "text"]


def bigfloat(v):
    return has(v, lambda x: isinstance(x, float) and abs(x) >= 2**63)


def reread(v, fmt):
    """The value as eu reads it back from the format."""
    if isinstance(v, dict):
        return {str.__str__(k): reread(x, fmt) for k, x in v.items()}
    if isinstance(v, list):
        return [reread(x, fmt) for x in v]
    if isinstance(v, Sym) and fmt in ("json", "yaml", "toml"):
        return v.name()
    return v


def close(got, want, fmt):
    """got: JSON of show(v)"""
    if isinstance(want, dict):
        if not (isinstance(got, list) and got and got[0] == "#b" and len(got) == len(want) + 1):
            return False
        if fmt in ("eu", "yaml"):
            return all(g[0] == k and close(g[1], v, fmt) for g, (k, v) in zip(got[1:], want.items()))
        m = {g[0]: g[1] for g in got[1:]}
        return len(m) == len(want) and all(k in m and close(m[k], v, fmt) for k, v in want.items())
    if isinstance(want, list):
        return isinstance(got, list) and got and got[0] == "#l" and len(got) == len(want) + 1 and all(close(g, v, fmt) for g, v in zip(got[1:], want))
    if isinstance(want, Sym):
        return got == ["#s", want.name()] or (fmt == "edn" and got == want.name())
    if isinstance(want, D.Stamp):
        return got == ["#t", str(want)] or (fmt in ("json", "yaml") and got == str(want))
    if want is None or isinstance(want, bool) or got is None or isinstance(got, bool):
        return got is want
    if isnum(want):
        return isnum(got) and (float(got) == want if isinstance(want, float) else got == want)
    return isinstance(got, str) and got == want


# -- markup -------------------------------------------------------------------
ELEMENTS = ["div", "span", "p", "ul", "li", "a", "h1", "section", "custom-tag", "td", "b", "title", "textarea", "svg"]
VOID = ["br", "hr", "img", "input", "meta", "link"]
RAW = ["script", "style"]


def mk_text(r):
    t = D.text(r)
    while "\x00" in t or "\r" in t:
        t = D.text(r)
    return t


def hiccup(r, d):
    """[tag, attributes, contents]; contents are texts and elements"""
    at = {}
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        at[r.choice(["id", "class", "href", "data-x", "title", "aria-label", "x1", "@click", ":bind"])] = r.choice([mk_text(r), mk_text(r), True, None, D.integer(r), Sym("s-1"), 'a"b', "a&b<c>", "&amp;", "'"])
    k = r.random()
    if k < .12:
        return [Sym(r.choice(VOID)), at]
    if k < .25:
        return [Sym(r.choice(RAW)), at] + r.choice([[], ["if (a < b && c > d) { e('</b>') }"], ["x", "y & \"z\""], ["body { color: red } a > b {}"]])
    kids = []
    tag = r.choice(ELEMENTS)
    if d > 0:
        for _ in range(r.choice([0, 1, 2, 3])):
            kids.append(hiccup(r, d - 1) if r.random() < .6 and tag not in ("title", "textarea") else r.choice([mk_text(r), mk_text(r), D.integer(r), True, None, Sym("sym"), "a < b & \"c\" > 'd'", "&lt;", "<b>", "\u00a0", "</div>"]))
    return [Sym(tag), at] + kids


def mk_scalar(x):
    return "" if x is None else "true" if x is True else "false" if x is False else str(x) if isnum(x) else str.__str__(x)


def mk_tree(h):
    """The tree a reader should see, adjacent texts joined."""
    kids = []
    for x in h[2:]:
        if isinstance(x, list):
            kids.append(mk_tree(x))
        else:
            t = mk_scalar(x)
            if kids and isinstance(kids[-1], str):
                kids[-1] += t
            elif t:
                kids.append(t)
    return (h[0].name(), {k: mk_scalar(v) for k, v in h[1].items()}, kids)


class Html(HTMLParser):
    CDATA_CONTENT_ELEMENTS = ("script", "style")

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.root = ("#root", {}, [])
        self.stack = [self.root]
        self.bad = []

    def handle_starttag(self, tag, attrs):
        e = (tag, {k: v or "" for k, v in attrs}, [])
        if len(e[1]) != len(attrs):
            self.bad.append("repeated attribute")
        self.stack[-1][2].append(e)
        if tag not in VOID:
            self.stack.append(e)

    def handle_endtag(self, tag):
        if self.stack[-1][0] != tag:
            self.bad.append("stray end tag " + tag)
        else:
            self.stack.pop()

    def handle_data(self, t):
        kids = self.stack[-1][2]
        if kids and isinstance(kids[-1], str):
            kids[-1] += t
        else:
            kids.append(t)

    def handle_decl(self, d):
        if self.stack[-1] is not self.root or self.root[2] or d != "DOCTYPE html":
            self.bad.append("declaration " + d)

    def handle_comment(self, d):
        self.bad.append("comment")

    def unknown_decl(self, d):
        self.bad.append("unknown declaration")


def mk_read(t):
    p = Html()
    p.feed(t[:-1] if t.endswith("\n") else t)
    p.close()
    if p.bad or len(p.stack) != 1 or len(p.root[2]) != 1:
        return ("bad", p.bad, p.root[2])
    return p.root[2][0]


def nasty(r):
    """Lists that are not markup."""
    t = hiccup(r, 1)
    k = r.randrange(11)
    if k == 0:
        t[0] = r.choice([Sym("a b"), Sym("a>"), Sym(""), "1", 1, "<b", 'a"b', "a/b", Sym("p onload=x")])
    elif k == 1:
        t[1] = dict(t[1])
        t[1][r.choice(["a b", "a>b", 'a"', "a=b", "", "a/b", "x'y"])] = "v"
    elif k == 2:
        t = [Sym("p"), "text"]
    elif k == 3:
        t = [Sym("p"), [Sym("b"), {}]]
    elif k == 4:
        t = [Sym("p"), {}, "a", {"k": 1}]
    elif k == 5:
        t = [Sym(r.choice(VOID)), {}, r.choice(["text", [Sym("b"), {}]])]
    elif k == 6:
        t = [Sym("script"), {}, r.choice(["a</script>b", "</SCRIPT >", "<!--", [Sym("b"), {}]])]
    elif k == 7:
        t = [Sym("p"), {"a": [1]}]
    elif k == 8:
        t = [Sym("p"), {"a": {"b": 1}}]
    elif k == 9:
        t = r.choice([{"a": 1}, "text", 1, None, []])
    else:
        t = [r.choice([[Sym("p")], {"a": 1}]), {}]
    return [Sym("div"), {}, t] if r.random() < .4 and k < 9 else t


# -- check --------------------------------------------------------------------
def main():
    c = Ctx("C21", rule="distinct (value, format, way of rendering) whose output was read by an independent reader and compared with the value, or whose refusal was observed")
    r = c.sub("values")
    n = 900 if c.quick else 7000
    vals = []
    for i in range(n):
        odd = r.random() < .35
        v = gen(r, r.choice([1, 2, 3, 4]), odd)
        while isinstance(v, (Gone, Tag)):
            v = v.v
        if r.random() < .5 and not isinstance(v, (dict, Tag)):
            v = {D.key(r, .1): v, "z": gen(r, 1, odd)}
        if r.random() < .05 and isinstance(v, dict):
            v = dict(v)
            v[Key(r.randint(0, 99))] = 1
        vals.append((v, spell(r, v)))
    for v, e in vals[:6]:
        c.sample(e[:300])
    again = []
    lock = threading.Lock()

    def judge(i, fmt, out, how, src, args, cfg):
        v, e = vals[i]
        c.count("%s %s %s" % (how, fmt, e))
        c.cov("%s via %s" % (fmt, how))
        b = bare(v)
        why = None
        if fmt == "eu":
            pass
        elif fmt == "text":
            if not text_ok(out, b):
                why = "text output does not hold each scalar"
        else:
            try:
                got = READ[fmt](out)
            except Exception as x:
                why = "is not readable %s: %s" % (fmt, " ".join(str(x).split())[:160])
            else:
                if not alike(got, tags(v) if fmt == "yaml" else b, fmt):
                    why = "%s output reads as %r" % (fmt, got)
        if why:
            c.violate("%s via %s: `%s` %s" % (fmt, how, e[:250], why[:400]), "output:\n" + out[:2000], {"main.eu": src}, args=args, env=cfg[2])
        elif fmt != "text":
            with lock:
                again.append((i, fmt, out))

    # many values and formats to one run, rendered to strings
    def strings(job):
        k, pairs = job
        rr = c.sub("s", k)
        cfg = CONFIGS[k % len(CONFIGS)]
        if len(c.violations) >= 25 or not c.left(70, 700):
            return
        src = "".join("` :suppress\nv%d: %s\n" % (i, vals[i][1]) for i in sorted({i for i, _ in pairs}))
        src += "".join("c%d: %s\n" % (j, "v%d render-as(:%s)" % (i, f) if f != "yaml" or rr.random() < .7 else "render(v%d)" % i) for j, (i, f) in enumerate(pairs))
        args = ["-j", "--suppress-type-warnings"] + list(cfg[1])
        p = c.eu_src(src, args, env=cfg[2], timeout=60)
        if p.rc != 0 or p.timeout:
            if len(pairs) > 1:
                m = len(pairs) // 2
                strings((k, pairs[:m]))
                strings((k, pairs[m:]))
                return
            i, f = pairs[0]
            c.violate("%s via render-as: `%s` %s" % (f, vals[i][1][:250], "timed out" if p.timeout else "was refused: " + " ".join(p.errtext.split())[:250]), p.brief(), {"main.eu": src}, args=args, env=cfg[2])
            return
        got = jload(p.out)
        for j, (i, f) in enumerate(pairs):
            judge(i, f, got["c%d" % j], "render-as", src, args, cfg)

    good, bad = [], []
    for i, (v, e) in enumerate(vals):
        for f in FORMATS:
            if f == "edn" and bigfloat(bare(v)):
                continue  # a recorded finding, probed below
            (bad if refuses(f, bare(v)) else good).append((i, f))
    c.pmap(strings, [(k, good[k:k + 60]) for k in range(0, len(good), 60)])

    # one value to standard output or a file
    def output(job):
        k, (i, f) = job
        if len(c.violations) >= 25 or not c.left(100, 800):
            return
        rr = c.sub("o", k)
        v, e = vals[i]
        cfg = CONFIGS[k % len(CONFIGS)]
        dict_ok = isinstance(v, dict) and all(isinstance(x, str) and "'" not in x and "\n" not in x and x not in FREE for x in v)
        how = rr.choice(["-x", "-x", "-o"] + (["unit"] * 2 if dict_ok else []))
        if how == "unit":
            src = "".join("%s: %s\n" % (x if plain_key(x) else "'%s'" % x, spell(rr, y)) for x, y in v.items()) or "# nothing\n"
            sel = []
        else:
            src = "` :suppress\nother: 1\nv: %s\n" % e
            sel = ["-e", "v"]
        d = c.dir()
        base = ["--suppress-type-warnings"] + list(cfg[1]) + sel
        dest = None
        if how == "-o":
            ext = {"text": "txt"}.get(f, f)
            dest = d + "/out." + (ext if rr.random() < .5 and f in ("json", "yaml", "toml", "edn", "text") else "dat")
            args = base + ["-o", "out." + dest.rsplit(".", 1)[1]] + ([] if not dest.endswith(".dat") else ["-x", f])
        else:
            args = base + ([] if f == "yaml" and rr.random() < .3 else ["-j"] if f == "json" and rr.random() < .3 else ["-x", f])
        open(d + "/main.eu", "w").write(src)
        p = c.run(args + ["main.eu"], cwd=d, env=cfg[2], timeout=60)
        out = p.text
        if dest:
            out = open(dest, newline="").read() if os.path.exists(dest) else "(no file)"
            if p.out:
                c.violate("%s via -o: `%s` wrote to standard output too" % (f, e[:200]), p.brief(), {"main.eu": src}, args=args, env=cfg[2])
        if p.rc != 0 or p.timeout:
            c.violate("%s via %s: `%s` was refused: %s" % (f, how, e[:250], " ".join(p.errtext.split())[:250]), p.brief(), {"main.eu": src}, args=args + ["main.eu"], env=cfg[2])
            return
        judge(i, f, out, how, src, args + ["main.eu"], cfg)
    picks = r.sample(good, min(len(good), 500 if c.quick else 4000))
    c.pmap(output, list(enumerate(picks)))

    # refusals
    def refused(job):
        k, (i, f) = job
        if len(c.violations) >= 25 or not c.left(110, 820):
            return
        v, e = vals[i]
        cfg = CONFIGS[k % len(CONFIGS)]
        how = ["-x", "render-as", "-o"][k % 3]
        src = "v: %s\n" % e
        if how == "render-as":
            src = "` :suppress\n" + src + "r: v render-as(:%s)\n" % f
        d = c.dir()
        open(d + "/main.eu", "w").write(src)
        args = ["--suppress-type-warnings"] + list(cfg[1]) + (["-e", "r", "-j"] if how == "render-as" else ["-x", f, "-e", "v"]) + (["-o", "out.dat"] if how == "-o" else []) + ["main.eu"]
        p = c.run(args, cwd=d, env=cfg[2], timeout=60)
        c.count("refused %s %s %s" % (how, f, e))
        c.cov("%s refusal via %s" % (f, how))
        left = open(d + "/out.dat").read() if os.path.exists(d + "/out.dat") else ""
        if p.timeout or p.rc == 0 or crashed(p) or not p.err.strip() or p.out.strip() or left.strip():
            c.violate("%s via %s: `%s` cannot be held, yet is not refused (rc %s): %s" % (f, how, e[:250], p.rc, (p.text or left or p.errtext)[:200]), p.brief(), {"main.eu": src}, args=args, env=cfg[2])
    c.pmap(refused, list(enumerate(r.sample(bad, min(len(bad), 150 if c.quick else 1500)))))

    # what was written reads back as the same data
    def back(job):
        k, group = job
        if len(c.violations) >= 25 or not c.left(125, 850):
            return
        files, body = {}, []
        imports = []
        for j, (i, f, out) in enumerate(group):
            if f == "eu":
                files["d%d.eu" % j] = "r: " + out
                imports.append("d%d=d%d.eu" % (j, j))
                body.append("c%d: show(d%d.r)" % (j, j))
            else:
                files["d%d.%s" % (j, f)] = out
                imports.append("d%d=d%d.%s" % (j, j, f))
                body.append("c%d: show(d%d)" % (j, j))
        src = "{ import: [%s] }\n" % ", ".join('"%s"' % x for x in imports) + D.SHOW + "\n".join(body) + "\n"
        args = ["-j", "--suppress-type-warnings"]
        p = c.eu_src(src, args, files, timeout=60)
        if p.rc != 0 or p.timeout:
            if len(group) > 1:
                m = len(group) // 2
                back((k, group[:m]))
                back((k, group[m:]))
                return
            i, f, out = group[0]
            c.violate("%s read back: `%s` gave unreadable output: %s" % (f, vals[i][1][:250], " ".join(p.errtext.split())[:200]), p.brief(), dict(files, **{"main.eu": src}), args=args)
            return
        got = jload(p.out)
        for j, (i, f, out) in enumerate(group):
            c.count("back %s %s" % (f, out))
            c.cov("%s read back" % f)
            want = reread(bare(vals[i][0]), f)
            if not close(got.get("c%d" % j), want, f):
                c.violate("%s read back: `%s` came back as %s" % (f, vals[i][1][:250], json.dumps(got.get("c%d" % j), ensure_ascii=False)[:300]), "output:\n" + out[:1500], dict(files, **{"main.eu": src}), args=args)
    # not read back: tags evaluate on import; keys that are no text
    ready = [x for x in again if not (x[1] == "yaml" and has(tags(vals[x[0]][0]), lambda y: isinstance(y, Tag))) and not has(bare(vals[x[0]][0]), lambda y: isinstance(y, Key))]
    r.shuffle(ready)
    ready = ready[:2500 if c.quick else 20000]
    c.pmap(back, [(k, ready[k:k + 30]) for k in range(0, len(ready), 30)])

    # markup
    hs = [hiccup(r, r.choice([0, 1, 2, 3])) for _ in range(400 if c.quick else 4000)]

    def markup(job):
        k, group = job
        if len(c.violations) >= 25 or not c.left(140, 870):
            return
        cfg = CONFIGS[k % len(CONFIGS)]
        rr = c.sub("m", k)
        es = [spell(rr, h) for h in group]
        src = "".join("` :suppress\nv%d: %s\n" % x for x in enumerate(es)) + "".join("c%d: v%d render-as(:html)\n" % (j, j) for j in range(len(group)))
        args = ["-j", "--suppress-type-warnings"] + list(cfg[1])
        p = c.eu_src(src, args, env=cfg[2], timeout=60)
        if p.rc != 0 or p.timeout:
            if len(group) > 1:
                m = len(group) // 2
                markup((k, group[:m]))
                markup((k, group[m:]))
                return
            c.violate("html: `%s` was refused: %s" % (es[0][:250], " ".join(p.errtext.split())[:200]), p.brief(), {"main.eu": src}, args=args, env=cfg[2])
            return
        got = jload(p.out)
        for j, h in enumerate(group):
            t = got["c%d" % j]
            c.count("html " + es[j])
            c.cov("html via render-as")
            if mk_read(t) != mk_tree(h):
                c.violate("html: `%s` reads as %r" % (es[j][:250], mk_read(t)), t, {"main.eu": src}, args=args, env=cfg[2])
            if j == 0:
                q = c.eu_src("v: %s\n" % es[0], ["-x", "html", "-e", "v", "--suppress-type-warnings"] + list(cfg[1]), env=cfg[2], timeout=30)
                c.cov("html via -x")
                if q.rc != 0 or q.text != t:
                    c.violate("html: `%s` differs between -x and render-as" % es[0][:250], q.brief() + "\n" + t, {"main.eu": src}, env=cfg[2])
    c.pmap(markup, [(k, hs[k:k + 20]) for k in range(0, len(hs), 20)])

    def notmarkup(job):
        k, h = job
        rr = c.sub("n", k)
        e = spell(rr, h)
        how = k % 2
        src = "v: %s\n" % e if how else "` :suppress\nv: %s\nr: v render-as(:html)\n" % e
        args = ["--suppress-type-warnings"] + (["-x", "html", "-e", "v"] if how else ["-j", "-e", "r"])
        p = c.eu_src(src, args, timeout=30)
        c.count("not markup " + e)
        c.cov("html refusal")
        if p.timeout or p.rc == 0 or crashed(p) or not p.err.strip() or p.out.strip():
            c.violate("html: `%s` is not markup, yet is not refused (rc %s): %s" % (e[:250], p.rc, p.text[:200]), p.brief(), {"main.eu": src}, args=args)
    c.pmap(notmarkup, list(enumerate(nasty(r) for _ in range(120 if c.quick else 800))))

    # recorded findings
    for t, sig in (("null", "tag of a null or boolean"), ("true", "tag of a null or boolean")):
        p = c.eu_src('r: %s // { tag: "!x" }\n' % t, ["-x", "yaml", "--suppress-type-warnings"], timeout=20)
        c.count("known tag " + t)
        if p.rc == 0 and "!x" not in p.text:
            c.violate("%s: the tag of %s is not written" % (sig, t), p.brief(), {}, signature=sig)
    p = c.eu_src("r: [10000000000000000000000.0]\n", ["-x", "edn", "--suppress-type-warnings"], timeout=20)
    c.count("known edn float")
    if p.rc == 0 and not re.search(r"[.eE]", p.text.split("[")[-1]):
        c.violate("%s: a float is written without point or exponent, so it reads as an integer: %s" % (SIG_EDN, p.text.strip()), p.brief(), {}, signature=SIG_EDN)
    return c.finish(3000)


if __name__ == "__main__":
    sys.exit(main())
