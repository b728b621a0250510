"""C15: type specifications and patterns accept exactly the values they describe.

Random types are spelled in randomly chosen ways (type literals, hand-built type data) and
crossed with members, near-members and unrelated values; membership, the validator's report and
ensure's verdict are compared with a Python model of the documented relation. Values the type
does not name are panics, so checking a value must not force them."""
import re
from ..batch import *
from ..val import *
from .c10 import ordj, HEADER as H10

HEADER = '{ import: ["resource:contract"] }\n' + H10 + """
c15m(t, v): v match?(t as-spec)
c15f(a, b): a
c15g(a): a
"""


class Fn:
    def __init__(self, s):
        self.s = s

    def to_eu(self):
        return self.s


class Opq:
    """A value that is none of the named kinds (a set or vec)."""

    def __init__(self, s):
        self.s = s

    def to_eu(self):
        return self.s


class Boom:
    """A value that must not be forced."""

    def to_eu(self):
        return 'panic("forced")'

    def to_json(self):
        return None


FNS_ = ["c15g", "(+ 1)", "c15f", "c15f(1)", "identity", "(_ + 1)", "str.of"]
OPQ = ["set.from-list([1])", "vec.of([1, 2])", "\u2205"]
PRIMS = ["number", "string", "symbol", "bool", "null", "datetime"]
FIELDS = ["alpha", "b", "c2", "delta-x", "e_f", "Gamma", "host", "port"]
ODD = ["my key", "日本", "0", "a.b", "x'"]
SURPLUS = ["zz1", "zz2", "zz 3"]


# types: ("prim", n) ("list", t) ("tuple", ts) ("prefix", ps, t) ("rec", {k: (opt, t)}, open)
#        ("union", ts) ("partial", t) ("fn", a, b) ("any", spelling) ("lit", v)
def gen_type(r, d, lit=False, odd=False):
    k = r.random()
    if d <= 0 or k < .25:
        if lit and r.random() < .25:
            return ("lit", r.choice([Sym("ok"), Sym("error"), Sym("number"), "prod", "dev", "", 'q"x', "a\\b", "é {x}"]) if odd
                    else Sym(r.choice(["ok", "error", "x-1"])))
        if r.random() < .12:
            return ("any", r.choice(["any", "a", "b"]))
        if r.random() < .1:
            return ("fn", ("prim", "number"), ("prim", r.choice(PRIMS)))
        return ("prim", r.choice(PRIMS))
    sub = lambda: gen_type(r, d - 1, lit, odd)
    if k < .4:
        return ("list", sub())
    if k < .5:
        return ("tuple", [sub() for _ in range(r.choice([1, 2, 2, 3]))])
    if k < .6:
        return ("prefix", [sub() for _ in range(r.choice([1, 1, 2, 3]))], sub())
    if k < .8:
        ks_ = r.sample(FIELDS, r.choice([0, 1, 1, 2, 2, 3, 4]))
        if odd and r.random() < .3:
            ks_ += r.sample(ODD[:4], 1)
        return ("rec", {q: (r.random() < .35, sub()) for q in ks_}, r.random() < .45)
    if k < .9:
        return ("union", [sub() for _ in range(r.choice([2, 2, 3]))])
    if k < .97:
        return ("partial", sub())
    return ("fn", sub(), sub())


def flat(t):
    """Members of a union, as the type language writes them."""
    return t[1]


def show(t, r=None, ctx=""):
    """Spelling of a type. ctx says where it stands: '' anywhere, 'alt' as a union member,
    'dom' left of an arrow, 'rng' right of it, 'post' before a ?. With r, spelled at random;
    without, the canonical form."""
    sp = lambda s=" ": s if r is None else r.choice([s, s, s + " ", "" if s == "" else " "])
    k = t[0]
    par = False
    if k == "prim" or k == "any":
        s = t[1]
    elif k == "lit":
        s = ":" + t[1].name() if isinstance(t[1], Sym) else '"%s"' % t[1].replace("\\", "\\\\").replace('"', '\\"')
    elif k == "list":
        if r is not None and r.random() < .15:
            s = "[%s%s]" % (show(t[1], r), r.choice(["…", "..."]))
        else:
            s = "[" + sp("") + show(t[1], r) + sp("") + "]"
    elif k == "tuple":
        if len(t[1]) == 1:
            s = "(%s,)" % show(t[1][0], r)
        else:
            s = "(" + ("," + sp()).join(show(x, r) for x in t[1]) + (", " if r is not None and r.random() < .2 else "") + ")"
    elif k == "prefix":
        s = "[" + ", ".join(show(x, r) for x in t[1] + [t[2]]) + ("…" if r is None else r.choice(["…", "..."])) + "]"
    elif k == "rec":
        items = list(t[1].items())
        if r is None:
            items.sort(key=lambda kv: kv[0].encode())
        else:
            r.shuffle(items)
        fs = ["%s%s:%s%s" % (q, "?" if o else "", sp(), show(x, r)) for q, (o, x) in items]
        if t[2]:
            fs.append(".." if r is None else r.choice(["..", "..", "..r"]))
        s = "{" + sp("") + ("," + sp()).join(fs) + "}"
        if t[2] and not t[1] and r is not None and r.random() < .5:
            s = "block"
    elif k == "union":
        s = (sp() + "|" + sp()).join(show(x, r, "alt") for x in t[1])
        par = ctx in ("alt", "dom", "rng", "post")
    elif k == "partial":
        s = show(t[1], r, "post") + "?"
        par = False
    elif k == "fn":
        s = show(t[1], r, "dom") + sp() + ("→" if r is None else r.choice(["→", "->"])) + sp() + show(t[2], r, "rng")
        par = ctx in ("dom", "post")
    if par or (r is not None and r.random() < .06):
        s = "(" + s + ")"
    return s


def norm(t):
    """Nested unions written flat (a | b) | c = a | b | c, and [T…] = [T]."""
    return t


def td(t):
    """Type data: the tagged-list form, as a value."""
    k = t[0]
    if k == "prim":
        return [Sym("t-prim"), Sym(t[1])]
    if k == "any":
        return [Sym("t-prim"), Sym("any")] if t[1] == "any" else [Sym("t-var"), Sym(t[1])]
    if k == "lit":
        return [Sym("t-lit-sym" if isinstance(t[1], Sym) else "t-lit-str"), t[1]]
    if k == "list":
        return [Sym("t-list"), td(t[1])]
    if k == "tuple":
        return [Sym("t-tuple")] + [td(x) for x in t[1]]
    if k == "prefix":
        return [Sym("t-prefix-list"), [td(x) for x in t[1]], td(t[2])]
    if k == "rec":
        return [Sym("t-record"), {q: [Sym("t-field"), Sym("optional" if o else "required"), td(x)] for q, (o, x) in t[1].items()}, t[2]]
    if k == "union":
        return [Sym("t-union")] + [td(x) for x in t[1]]
    if k == "partial":
        return [Sym("t-partial"), td(t[1])]
    if k == "fn":
        return [Sym("t-fn"), td(t[1]), td(t[2])]


def td_eu(t, r):
    """Source of hand-built type data; a field may be bare and a record two elements long."""
    k = t[0]
    if k == "rec":
        fs = ["%s: %s" % (key(q), ("[:t-field, :%s, %s]" % ("optional" if o else "required", td_eu(x, r))) if o or r.random() < .7 else td_eu(x, r))
              for q, (o, x) in t[1].items()]
        fl = ", true" if t[2] else r.choice([", false", ""])
        return "[:t-record, {%s}%s]" % (", ".join(fs), fl)
    if k == "prim" or k == "any" or k == "lit":
        return to_eu(td(t))
    if k == "prefix":
        return "[:t-prefix-list, [%s], %s]" % (", ".join(td_eu(x, r) for x in t[1]), td_eu(t[2], r))
    return "[:t-%s, %s]" % ({"list": "list", "tuple": "tuple", "union": "union", "partial": "partial", "fn": "fn"}[k],
                            ", ".join(td_eu(x, r) for x in (t[1] if k in ("tuple", "union") else t[1:])))


def kind(v):
    if isinstance(v, (Fn, Opq)):
        return "function" if isinstance(v, Fn) else "unknown"
    if v is None:
        return "null"
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, (int, float)):
        return "number"
    if isinstance(v, Sym):
        return "symbol"
    if isinstance(v, str):
        return "string"
    if isinstance(v, Dt):
        return "datetime"
    if isinstance(v, (list, tuple)):
        return "list"
    if isinstance(v, dict):
        return "block"


def member(t, v):
    """The as-spec relation: records open."""
    k = t[0]
    if k == "prim":
        return kind(v) == t[1]
    if k == "any":
        return True
    if k == "list":
        return kind(v) == "list" and all(member(t[1], x) for x in v)
    if k == "tuple":
        return kind(v) == "list" and len(v) == len(t[1]) and all(map(member, t[1], v))
    if k == "prefix":
        n = len(t[1])
        return kind(v) == "list" and len(v) >= n and all(map(member, t[1], v)) and all(member(t[2], x) for x in v[n:])
    if k == "rec":
        return kind(v) == "block" and all((member(x, v[q]) if q in v else o) for q, (o, x) in t[1].items())
    if k == "union":
        return any(member(x, v) for x in t[1])
    if k == "partial":
        return v is None or member(t[1], v)
    if k == "fn":
        return kind(v) == "function"


IDENT = re.compile(r"^[a-zA-Z][a-zA-Z0-9_*!?-]*$")


def step(path, q):
    s = q if IDENT.match(q) else "'%s'" % q
    return s if path == "" else path + "." + s


def validate(t, v, path=""):
    k = t[0]
    mis = lambda: [dict(path=path, kind="type-mismatch", expected=show(t), found=kind(v))]
    if k == "prim":
        return [] if kind(v) == t[1] else mis()
    if k == "any":
        return []
    if k == "lit":
        return [] if veq(t[1], v) else mis()
    if k in ("list", "tuple", "prefix"):
        if kind(v) != "list":
            return mis()
        if k == "list":
            ts = [t[1]] * len(v)
        elif k == "tuple":
            ts = t[1]
            if len(v) != len(ts):
                return [dict(path=path, kind="length", expected=len(ts), found=len(v))]
        else:
            if len(v) < len(t[1]):
                return [dict(path=path, kind="length", expected=len(t[1]), found=len(v))]
            ts = t[1] + [t[2]] * (len(v) - len(t[1]))
        return [e for i, (x, y) in enumerate(zip(ts, v)) for e in validate(x, y, "%s[%d]" % (path, i))]
    if k == "rec":
        if kind(v) != "block":
            return mis()
        out = []
        for q, (o, x) in t[1].items():
            if q in v:
                out += validate(x, v[q], step(path, q))
            elif not o:
                out.append(dict(path=path, kind="missing", expected=q, found="absent"))
        extra = [q for q in v if q not in t[1]]
        if extra and not t[2]:
            out.append(dict(path=path, kind="unexpected", expected="closed", found=extra))
        return out
    if k == "union":
        return [] if any(not validate(x, v, path) for x in t[1]) else mis()
    if k == "partial":
        return [] if v is None else validate(t[1], v, path)
    if k == "fn":
        return [] if kind(v) == "function" else mis()


def gen_member(r, t, d=4):
    k = t[0]
    if k == "prim":
        return {"number": lambda: r.choice([r.randint(-99, 99), N.gen_num(r)]), "string": lambda: gen_str(r, True), "symbol": lambda: Sym(r.choice(WORDS)),
                "bool": lambda: r.random() < .5, "null": lambda: None, "datetime": lambda: gen_dt(r)}[t[1]]()
    if k == "any":
        return other(r, 2)
    if k == "lit":
        return t[1]
    if k == "list":
        return [gen_member(r, t[1], d - 1) for _ in range(r.choice([0, 1, 2, 3]))]
    if k == "tuple":
        return [gen_member(r, x, d - 1) for x in t[1]]
    if k == "prefix":
        return [gen_member(r, x, d - 1) for x in t[1]] + [gen_member(r, t[2], d - 1) for _ in range(r.choice([0, 0, 1, 2, 3]))]
    if k == "rec":
        items = [(q, gen_member(r, x, d - 1)) for q, (o, x) in t[1].items() if not o or r.random() < .6]
        if t[2] and r.random() < .5:
            items.append((r.choice(SURPLUS), Boom() if r.random() < .6 else 1))
        r.shuffle(items)
        return dict(items)
    if k == "union":
        return gen_member(r, r.choice(t[1]), d - 1)
    if k == "partial":
        return None if r.random() < .3 else gen_member(r, t[1], d - 1)
    if k == "fn":
        return Fn(r.choice(FNS_))


def other(r, d=2):
    k = r.random()
    if k < .12:
        return Fn(r.choice(FNS_))
    if k < .16:
        return Opq(r.choice(OPQ))
    if k < .24:
        return gen_dt(r)
    if d and k < .36:
        return [other(r, d - 1) for _ in range(r.randint(0, 3))]
    if d and k < .48:
        return {q: other(r, d - 1) for q in r.sample(FIELDS, r.randint(0, 3))}
    return r.choice([0, 1.5, "s", "", True, False, None, Sym("ok"), Sym("b"), -3, "prod", [], {}, "number", "ok", 2**63])


def mutate(r, t, v):
    """A value near v: one spot changed."""
    if isinstance(v, (list,)) and v and r.random() < .8:
        k = r.random()
        v = list(v)
        if k < .15:
            v.pop(r.randrange(len(v)))
        elif k < .3:
            v.insert(r.randint(0, len(v)), r.choice(v) if r.random() < .6 else other(r, 1))
        elif k < .4:
            r.shuffle(v)
        else:
            i = r.randrange(len(v))
            v[i] = mutate(r, t, v[i])
        return v
    if isinstance(v, dict) and r.random() < .85:
        k = r.random()
        v = dict(v)
        ks_ = list(v)
        if ks_ and k < .2:
            del v[r.choice(ks_)]
        elif k < .35:
            v[r.choice(SURPLUS)] = Boom() if r.random() < .5 else other(r, 1)
        elif ks_ and k < .42:
            q = r.choice(ks_)
            v[q.upper() + "q"] = v.pop(q)
        elif ks_:
            q = r.choice(ks_)
            if not isinstance(v[q], Boom):
                v[q] = mutate(r, t, v[q])
        return v
    return other(r, 2)


def value(r, t):
    k = r.random()
    if k < .35:
        return gen_member(r, t)
    if k < .85:
        v = gen_member(r, t)
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            v = mutate(r, t, v)
        return v
    return other(r, 2)


def named(t):
    """Keys the type names; values under them may be forced."""
    return t


def src(v, r):
    if isinstance(v, dict):
        return "{" + ", ".join("%s: %s" % (key(k), src(x, r)) for k, x in v.items()) + "}"
    if isinstance(v, list):
        return "[" + ", ".join(src(x, r) for x in v) + "]"
    if hasattr(v, "to_eu") and not isinstance(v, Dt):
        return v.to_eu()
    return lz(v, r)


def spell(t, r, lits_ok=True):
    """Source for a type specification value."""
    s = show(t, r)
    weird = any(c in s for c in '"\\{}\n') and ('"' in s or "\\" in s)
    k = r.random()
    oddk = odd_keys(t)
    if k < .6 and not weird and not oddk:
        return 's"%s"' % s
    if k < .7 and not weird and not oddk:
        return '(s"%s" to-data)' % s
    if k < .8 and not weird and not oddk:
        return '(s"%s" to-data from-data)' % s
    return td_eu(t, r)


def odd_keys(t):
    if t[0] == "rec":
        return any(not re.match(r"^[a-zA-Z][a-zA-Z0-9_-]*$", q) for q in t[1]) or any(odd_keys(x) for _, x in t[1].values())
    return any(odd_keys(x) for x in t[1:] if isinstance(x, tuple)) or any(odd_keys(y) for x in t[1:] if isinstance(x, list) for y in x)


def size(t):
    if t[0] == "rec":
        return 1 + sum(size(x) for _, x in t[1].values())
    return 1 + sum(size(x) for x in t[1:] if isinstance(x, tuple)) + sum(size(y) for x in t[1:] if isinstance(x, list) for y in x)


# patterns for match?: ("lit", v) ("pred", src, fn) ("list", ps) ("block", {k: p}) ("type", t)
PREDS = [("number?", lambda v: kind(v) == "number"), ("string?", lambda v: kind(v) == "string"), ("symbol?", lambda v: kind(v) == "symbol"),
         ("bool?", lambda v: kind(v) == "bool"), ("null?", lambda v: v is None), ("list?", lambda v: kind(v) == "list"),
         ("block?", lambda v: kind(v) == "block"), ("any?", lambda v: True), ("datetime?", lambda v: kind(v) == "datetime"),
         ("c15none", lambda v: False), ("(_ = 3)", lambda v: veq(v, 3)), ("(_ = :ok)", lambda v: veq(v, Sym("ok")))]


def gen_pat(r, d):
    k = r.random()
    if d <= 0 or k < .35:
        if r.random() < .5:
            return ("pred",) + r.choice(PREDS)
        return ("lit", r.choice([1, 2.5, -3, "s", "", True, False, None, Sym("ok"), Sym("s"), 3]))
    if k < .6:
        return ("list", [gen_pat(r, d - 1) for _ in range(r.choice([0, 1, 2, 3]))])
    if k < .9:
        return ("block", {q: gen_pat(r, d - 1) for q in r.sample(FIELDS, r.choice([0, 1, 2, 3]))})
    return ("type", gen_type(r, 1))


def pat_src(p, r):
    k = p[0]
    if k == "lit":
        return lz(p[1], r)
    if k == "pred":
        return p[1]
    if k == "list":
        return "[" + ", ".join(pat_src(x, r) for x in p[1]) + "]"
    if k == "block":
        return "{" + ", ".join("%s: %s" % (key(q), pat_src(x, r)) for q, x in p[1].items()) + "}"
    return '(s"%s" as-spec)' % show(p[1], r)


def matches(p, v):
    k = p[0]
    if k == "lit":
        return veq(p[1], v)
    if k == "pred":
        return p[2](v)
    if k == "list":
        return kind(v) == "list" and len(v) == len(p[1]) and all(map(matches, p[1], v))
    if k == "block":
        return kind(v) == "block" and all(q in v and matches(x, v[q]) for q, x in p[1].items())
    return member(p[1], v)


def pat_member(r, p):
    k = p[0]
    if k == "lit":
        return p[1]
    if k == "pred":
        for _ in range(20):
            v = other(r, 1)
            if p[2](v) and not isinstance(v, Fn):
                return v
        return 3
    if k == "list":
        return [pat_member(r, x) for x in p[1]]
    if k == "block":
        items = [(q, pat_member(r, x)) for q, x in p[1].items()]
        if r.random() < .4:
            items.append((r.choice(SURPLUS), Boom()))
        r.shuffle(items)
        return dict(items)
    return gen_member(r, p[1])


def has_fn(v):
    return isinstance(v, (Fn, Opq)) or isinstance(v, list) and any(map(has_fn, v)) or isinstance(v, dict) and any(map(has_fn, v.values()))


def words(s):
    """What a rendering of a type says, less the grouping and order it is free to choose."""
    return sorted(set(re.findall(r'"(?:[^"\\]|\\.)*"|[^\s(){}\[\],|→:?]+', s.replace("..r", ".."))))



def nested_union(t):
    """A union directly inside a union, which the type language flattens."""
    if t[0] in ("union", "partial"):
        if any(x[0] in ("union", "partial") for x in (t[1] if t[0] == "union" else [t[1]])):
            return True
    return any(nested_union(x) for x in kids(t))


def kids(t):
    k = t[0]
    if k in ("list", "partial"):
        return [t[1]]
    if k in ("tuple", "union"):
        return list(t[1])
    if k == "prefix":
        return list(t[1]) + [t[2]]
    if k == "fn":
        return [t[1], t[2]]
    if k == "rec":
        return [x for _, x in t[1].values()]
    return []


def saying(w, quote=False):
    return Pred(lambda g: isinstance(g, str) and words(g) == words(w), "a rendering of " + w)


def rep(vs):
    return sorted(json.dumps(dict(v, expected=words(v["expected"]) if isinstance(v["expected"], str) else v["expected"], found=sorted(v["found"]) if isinstance(v["found"], list) else v["found"]), sort_keys=True) for v in vs)


def main():
    ctx = Ctx("C15", rule="random types in random spellings x members, near-members and unrelated values; distinct by expression text; "
              "expected membership and reports from a Python model of the documented relation")
    cases = []
    r = ctx.sub("as-spec")
    hit = [0, 0]
    n = ctx.scale(900, 15000)
    while n:
        t = gen_type(r, r.choice([0, 1, 2, 2, 3]))
        if size(t) > 14:
            continue
        v = value(r, t)
        w = member(t, v)
        if w and r.random() < .35:
            continue
        n -= 1
        hit[w] += 1
        e = "c15m(%s, %s)" % (spell(t, r), src(v, r))
        cases.append(Case(e, w, kind="as-spec %s %s" % (t[0], str(w).lower())))
    r = ctx.sub("validate")
    n = ctx.scale(900, 15000)
    while n:
        t = gen_type(r, r.choice([0, 1, 2, 2, 3]), lit=True, odd=r.random() < .4)
        if size(t) > 14:
            continue
        v = value(r, t)
        w = validate(t, v)
        if not w and r.random() < .5:
            continue
        n -= 1
        s, x = spell(t, r), src(v, r)
        k = r.random()
        if k < .75:
            W = rep(w)
            cases.append(Case(r.choice(["validate(%s, %s)" % (s, x), "%s validate(%s)" % (x, s)]),
                              Pred(lambda g, W=W: rep(g) == W, repr(w)), kind="validate %s %d" % (t[0], min(len(w), 3))))
        elif not w:
            if not has_boom(v) and not has_fn(v):
                cases.append(Case("%s ensure(%s) c10o" % (x, s), ordj_dt(v), kind="ensure passes"))
        else:
            lines = [line(z) for z in w if z["kind"] != "unexpected"]
            cases.append(Case("%s ensure(%s)" % (x, s), ErrAll(["%d violation%s against " % (len(w), "" if len(w) == 1 else "s")] + lines),
                              kind="ensure refuses"))
    # canonical names and the data form
    r = ctx.sub("data")
    n = ctx.scale(300, 5000)
    while n:
        t = gen_type(r, r.choice([0, 1, 2, 3]), lit=True)
        if size(t) > 14 or nested_union(t):
            continue
        n -= 1
        s = show(t, r)
        k = r.randrange(5)
        if k == 0:
            cases.append(Case('s"%s" to-data' % s, to_json(td(t)), kind="to-data"))
        elif k == 1:
            cases.append(Case('s"%s"' % s, saying(show(t)), kind="literal"))
        elif k == 2:
            cases.append(Case('%s type-str' % td_eu(t, r), saying(show(t)), kind="type-str"))
        elif k == 3:
            cases.append(Case('s"%s" to-data from-data to-data' % s, to_json(td(t)), kind="from-data"))
        else:
            cases.append(Case('%s from-data to-data' % td_eu(t, r), to_json(td(t)), kind="from-data by hand"))
    r = ctx.sub("match")
    for _ in range(ctx.scale(600, 8000)):
        p = gen_pat(r, r.choice([0, 1, 2, 3]))
        k = r.random()
        v = pat_member(r, p) if k < .8 else other(r)
        if .3 < k < .8:
            v = mutate(r, None, v)
        if has_fn(v):
            continue
        ps, x = pat_src(p, r), src(v, r)
        cases.append(Case(r.choice(["match?(%s, %s)" % (ps, x), "%s match?(%s)" % (x, ps), "[%s] filter(match?(%s)) non-nil?" % (x, ps),
                                    "[%s] any(match?(%s))" % (x, ps)]), matches(p, v), kind="match? %s" % p[0]))
    # not a specification at all
    for s in ["3", "{a: 1}", "[]", "\"x\"", "null", "[1, 2]", "true"]:
        cases.append(Case("validate(%s, 1) count" % s, Err("not a type spec"), kind="bad spec"))
        cases.append(Case("ensure(%s, 1)" % s, Err("not a type spec"), kind="bad spec"))
    for s in ["numbr |", "[", "{a number}", "(number", "a ->", "-> a", "[a, b]", "{a: number, a: string}", "number)", "forall . a", "|"]:
        cases.append(Case('s"%s"' % s.replace("{", "{").replace("}", "}"), Err(), kind="bad type literal"))
    run_cases(ctx, cases, header=HEADER + "c15none(x): false\n", order=False, per=25)
    ctx.cov("as-spec members", hit[1])
    ctx.cov("as-spec non-members", hit[0])
    return ctx.finish(min_distinct=1000)


def line(z):
    p = z["path"] or "(root)"
    if z["kind"] == "type-mismatch":
        return "%s: expected " % p
    if z["kind"] == "missing":
        return "%s: missing required field '%s'" % (p, z["expected"])
    return "%s: expected %s elements, found %s" % (p, z["expected"], z["found"])


class ErrAll(Err):
    def __init__(self, subs):
        self.any_of = subs[:1]
        self.all_of = subs

    def __repr__(self):
        return "ErrAll%r" % (self.all_of,)


def has_boom(v):
    return isinstance(v, Boom) or isinstance(v, list) and any(map(has_boom, v)) or isinstance(v, dict) and any(map(has_boom, v.values()))


def ordj_dt(v):
    if isinstance(v, dict):
        return Pred(lambda g: True, "block") if has_dt(v) else ordj(v)
    return Pred(lambda g: True, "dated") if has_dt(v) else ordj(v)


def has_dt(v):
    return isinstance(v, Dt) or isinstance(v, list) and any(map(has_dt, v)) or isinstance(v, dict) and any(map(has_dt, v.values()))
