"""C10: block operations preserve keys, order and values."""
import copy
from ..batch import *
from ..val import *
from .c09 import PREDS, FNS, BIN, HEADER as H9, lst

HEADER = H9 + """
c10o(v): if(v block?, cons("#b", v elements map(c10e)), if(v list?, cons("#l", v map(c10o)), v))
c10e([k, x]): [k, c10o(x)]
c10ren(k): sym("k-{k}")
c10swapped(k, v): [v, k]
c10kv(k, v): [sym("z{k}"), [v, v]]
c10ev([k, v]): [k, [k, v]]
c10rule(v): if(v number?, v + 100, if(v = :drop, "gone", null))
c10emit(s, v): [[s, v elements count]]
c10next(s, k): s + 1
c10str(k): str.of(k)
c10big?(v): v > 3
"""


def ordj(v):
    """Expected JSON of c10o(v)."""
    if isinstance(v, dict):
        return ["#b"] + [[str.__str__(k), ordj(x)] for k, x in v.items()]
    if isinstance(v, (list, tuple)):
        return ["#l"] + [ordj(x) for x in v]
    return to_json(v)


KEYS = ["alpha", "bravo", "charlie", "delta-2", "echo?", "fox_t", "golf", "hotel", "india", "juliet", "kilo", "Lima", "mike", "nov1", "oscar"]
WEIRD = ["with space", "日本", "é", "0", "12", "a.b", "x:y", "😀", "Capital Key", "- -", "=a", "a*b"]


def ks(r, n, weird=.15):
    pool = KEYS + ["k%02d" % i for i in range(60)] if n > 10 else KEYS
    out = r.sample(pool, n)
    return [r.choice(WEIRD) if r.random() < weird else k for k in out]


def blk(r, d=2, n=None, leaf=None):
    n = n if n is not None else r.choice([0, 1, 2, 3, 3, 4, 6, 9, 30 if r.random() < .15 else 2])
    out = {}
    for k in ks(r, n):
        q = r.random()
        if d > 1 and q < .35:
            out[k] = blk(r, d - 1, r.choice([0, 1, 2, 3]), leaf)
        elif d > 1 and q < .45:
            out[k] = [leaf(r) if leaf else r.randint(0, 9) for _ in range(r.randint(0, 3))]
        else:
            out[k] = leaf(r) if leaf else gen_scalar(r) if r.random() < .4 else r.randint(-9, 9)
    return out


def iblk(r, n=None):
    n = n if n is not None else r.choice([0, 1, 2, 3, 5, 8, 25 if r.random() < .2 else 4])
    return {k: r.randint(-9, 9) for k in ks(r, n)}


def bs(r, b):
    """Spell block b."""
    k = r.random()
    items = list(b.items())
    if k < .45:
        return to_eu(b, r)
    if k < .6:
        return lz(b, r)
    if k < .7:
        return "block([%s])" % ", ".join("[%s, %s]" % (sym(a), to_eu(x, r)) for a, x in items)
    if k < .8:
        i = r.randint(0, len(items))
        return "merge(%s, %s)" % (to_eu(dict(items[:i]), r), to_eu(dict(items[i:]), r))
    if k < .87 and items:
        return "map-values(identity, %s)" % to_eu(b, r)
    if k < .94 and items:
        # first with other values, then overridden
        return "merge(%s, %s)" % (to_eu({a: 0 for a, _ in items}), to_eu(dict(r.sample(items, len(items))), r))
    if items:
        return "zip-kv([%s], [%s])" % (", ".join(sym(a) for a, _ in items), ", ".join(to_eu(x, r) for _, x in items))
    return "{}"


def deep_merge(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = deep_merge(out[k], v) if k in out and isinstance(out[k], dict) and isinstance(v, dict) else v
    return out


def alter(b, path, f):
    if not path:
        return f(b)
    out = dict(b)
    if path[0] in out:
        out[path[0]] = alter(out[path[0]], path[1:], f)
    return out


def tongue(path, v):
    for k in reversed(path):
        v = {k: v}
    return v


def merge_at(b, path, v, mg):
    if not path:
        return mg(b, v)
    out = dict(b)
    if path[0] in out:
        out[path[0]] = merge_at(out[path[0]], path[1:], v, mg)
    else:
        out[path[0]] = tongue(path[1:], v)
    return out


def walk_blocks(v, path=()):
    """(path, block) depth-first, blocks through lists (path unchanged by lists)."""
    if isinstance(v, dict):
        yield path, v
        for k, x in v.items():
            yield from walk_blocks(x, path + (k,))
    elif isinstance(v, list):
        for x in v:
            yield from walk_blocks(x, path)


def query(pattern, b):
    segs = pattern.split(".")
    if segs[0] != "**":
        segs = ["**"] + segs
    pairs = [((), b)]

    def desc(p, v):
        if not isinstance(v, dict):
            return []
        out = [(p, v)]
        for k, x in v.items():
            out += desc(p + (k,), x)
        return out
    for s in segs:
        nx = []
        for p, v in pairs:
            if s == "**":
                nx += desc(p, v)
            elif s == "*":
                nx += [(p + (k,), x) for k, x in v.items()] if isinstance(v, dict) else []
            elif isinstance(v, dict) and s in v:
                nx.append((p + (s,), v[s]))
        pairs = nx
    return pairs


def transform(v):
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return v + 100
    if isinstance(v, Sym) and v.name() == "drop":
        return "gone"
    if isinstance(v, dict):
        return {k: transform(x) for k, x in v.items()}
    if isinstance(v, list):
        return [transform(x) for x in v]
    return v


def inner_paths(b, p=()):
    """All key paths to values of nested blocks (through blocks only)."""
    out = []
    for k, v in b.items():
        out.append(p + (k,))
        if isinstance(v, dict):
            out += inner_paths(v, p + (k,))
    return out


def at(b, p):
    for k in p:
        b = b[k]
    return b


def main():
    ctx = Ctx("C10", rule="block functions on random blocks (empty, wide, nested, unusual keys, shared and overridden keys) built in several ways; keys compared in order; distinct by expression text")
    cases = []
    r = ctx.sub("fn")

    def add(expr, want, kind):
        if isinstance(want, Err):
            cases.append(Case(expr, want, kind=kind))
        else:
            cases.append(Case("c10o(%s)" % expr, ordj(want), kind=kind))
    sl = lambda p: "[%s]" % ", ".join(sym(k) for k in p)
    absent = lambda b: next(k for k in r.sample(KEYS, len(KEYS)) + ["zz%d" % i for i in range(9)] if k not in b)

    def pick(b):
        return r.choice(list(b)) if b and r.random() < .75 else absent(b)

    def overlap(a, d=1):
        """A block sharing some of a's keys, nested blocks included."""
        b = {}
        for k in r.sample(list(a), r.randint(0, len(a))):
            v = a[k]
            b[k] = overlap(v, d) if isinstance(v, dict) and r.random() < .7 else r.choice([r.randint(0, 9), "new", None, {"n": 1}, [1]])
        for k, v in blk(r, 1, r.randint(0, 3)).items():
            b.setdefault(k, v)
        items = list(b.items())
        r.shuffle(items)
        return dict(items)

    def one(j):
        b = blk(r)
        B = bs(r, b)
        if j == 0:
            a = overlap(b)
            w = {**b, **a}
            add(r.choice(["merge(%s, %s)" % (B, bs(r, a)), "(%s %s)" % (to_eu(b, r), to_eu(a, r)), "merge-all([%s, %s])" % (B, bs(r, a))]), w, "merge")
        elif j == 1:
            a = overlap(b)
            add(r.choice(["deep-merge(%s, %s)" % (B, bs(r, a)), "(%s << %s)" % (to_eu(b, r), to_eu(a, r))]), deep_merge(b, a), "deep-merge")
        elif j == 2:
            bl = [b, overlap(b), overlap(b), blk(r, 1)]
            w = {}
            for x in bl:
                w.update(x)
            add("merge-all([%s])" % ", ".join(bs(r, x) for x in bl), w, "merge-all")
        elif j == 3:
            k = pick(b)
            forms = ["lookup(%s, %s)" % (sym(k), B), "lookup-in(%s, %s)" % (B, sym(k)), "(%s).%s" % (B, key(k)), "%s lookup(%s)" % (B, lz(Sym(k), r))]
            if k in b:
                add(r.choice(forms), b[k], "lookup")
            elif r.random() < .15:
                add(r.choice(forms), Err(), "lookup missing")
        elif j == 4:
            k = pick(b)
            d = r.randint(100, 110)
            add(r.choice(["lookup-or(%s, %d, %s)" % (sym(k), d, B), "lookup-or-in(%s, %s, %d)" % (B, lz(Sym(k), r), d)]), b.get(k, d), "lookup-or")
        elif j == 5:
            k = pick(b)
            add(r.choice(["has(%s, %s)", "(%s f10has(%s))"[:0] or "has(%s, %s)"]) % (lz(Sym(k), r), B), k in b, "has")
            add("%s ~ %s" % (B if not B.startswith(("merge", "block", "map", "zip")) else "(%s)" % B, sym(k)), b.get(k), "~")
        elif j == 6:
            s = [pick(b) for _ in range(r.randint(0, 4))]
            add("lookup-alts(%s, :dflt, %s)" % (sl(s), B), next((b[k] for k in s if k in b), Sym("dflt")), "lookup-alts")
            bl = [overlap(b), blk(r, 1), b]
            r.shuffle(bl)
            k = pick(b)
            add("lookup-across(%s, :dflt, [%s])" % (sym(k), ", ".join(bs(r, x) for x in bl)), next((x[k] for x in bl if k in x), Sym("dflt")), "lookup-across")
        elif j == 7:
            ps = inner_paths(b)
            if ps:
                p = r.choice(ps)
                add("lookup-path(%s, %s)" % (sl(p), B), at(b, p), "lookup-path")
                add("%s.%s" % ("(%s)" % B, ".".join(map(key, p))), at(b, p), "dotted")
                add("%s%s" % ("(%s)" % B, "".join(" ~ %s" % sym(k) for k in p + ("nope", "nix"))), None if "nope" not in str(p) else None, "~ chain")
        elif j == 8:
            add("elements(%s)" % B, [[Sym(k), v] for k, v in b.items()], "elements")
            add("block(elements(%s))" % B, b, "block elements")
        elif j == 9:
            add("keys(%s)" % B, [Sym(k) for k in b], "keys")
            add("values(%s)" % B, list(b.values()), "values")
        elif j == 10:
            add(r.choice(["sort-keys(%s)", "(%s sort-keys)"]) % B, {k: b[k] for k in sorted(b)}, "sort-keys")
        elif j == 11:
            i = iblk(r)
            fs, ff = r.choice(FNS)
            add("map-values(%s, %s)" % (fs, bs(r, i)), {k: ff(v) for k, v in i.items()}, "map-values")
            add("%s map-keys(c10ren)" % bs(r, i), {"k-" + k: v for k, v in i.items()}, "map-keys")
        elif j == 12:
            add("map-kv(c10swapped, %s)" % B, [[v, Sym(k)] for k, v in b.items()], "map-kv")
            add("%s map-elements(c10ev)" % B, {k: [Sym(k), v] for k, v in b.items()}, "map-elements")
            add("%s map-kv(c10kv) block" % B, {"z" + k: [v, v] for k, v in b.items()}, "map-kv block")
        elif j == 13:
            i = iblk(r)
            pr = [[Sym(k), v] for k, v in i.items()]
            fs, ff = r.choice(FNS)
            add("map-second(%s, %s)" % (fs, to_eu(pr, r)), [[k, ff(v)] for k, v in pr], "map-second")
            add("map-first(c10str, %s)" % to_eu(pr, r), [[k.name(), v] for k, v in pr], "map-first")
            if pr:
                add("bimap(c10ren, %s, %s)" % (fs, to_eu(pr[0], r)), [Sym("k-" + pr[0][0].name()), ff(pr[0][1])], "bimap")
        elif j == 14:
            k = ks(r, r.randint(0, 6))
            k = list(dict.fromkeys(k))
            v = [r.randint(0, 9) for _ in range(len(k) + r.randint(-1, 1) if k else 0)]
            add(r.choice(["zip-kv(%s, %s)", "with-keys(%s, %s)"]) % (sl(k), to_eu(v, r)), dict(zip(k, v)), "zip-kv")
            add("%s map-as-block(c10str)" % sl(k), {x: x for x in k}, "map-as-block")
            add("kv-block(%s, %s)" % (lz(Sym("kk"), r), lz(5, r)), {"kk": 5}, "kv-block")
        elif j == 15:
            i = iblk(r)
            ps, pf = r.choice(PREDS)
            add("filter-items(by-value(%s), %s) block" % (ps, bs(r, i)), {k: v for k, v in i.items() if pf(v)}, "filter-items by-value")
            add("filter-values(%s, %s)" % (ps, bs(r, i)), [v for v in i.values() if pf(v)], "filter-values")
            k = pick(i)
            add("filter-items(by-key(= %s), %s)" % (sym(k), bs(r, i)), [[Sym(k), i[k]]] if k in i else [], "by-key")
            add('%s filter-items(by-key-name(str.starts-with?("[a-e]"))) block' % bs(r, i), {k: v for k, v in i.items() if k[0] in "abcde"}, "by-key-name")
            add('match-filter-values("[a-z]+", %s)' % bs(r, {k: v for k, v in i.items() if k.isascii() and k.isalpha() and k.islower() or not any(c.isalpha() and c.islower() and c.isascii() for c in k)}),
                [v for k, v in i.items() if k.isascii() and k.isalpha() and k.islower()], "match-filter-values")
        elif j == 16:
            s = [pick(b) for _ in range(r.randint(0, 4))]
            add("%s select(%s)" % (B, sl(s)), {k: v for k, v in b.items() if k in s}, "select")
            add("%s dissoc(%s)" % (B, sl(s)), {k: v for k, v in b.items() if k not in s}, "dissoc")
        elif j == 17:
            k = pick(b)
            v = gen_scalar(r)
            add("%s alter-value(%s, %s)" % (B, sym(k), lz(v, r)), {x: (v if x == k else y) for x, y in b.items()}, "alter-value")
            add("%s set-value(%s, %s)" % (B, sym(k), lz(v, r)), {**b, k: v}, "set-value")
        elif j == 18:
            i = iblk(r)
            k = pick(i)
            fs, ff = r.choice(FNS)
            add("%s update-value(%s, %s)" % (bs(r, i), sym(k), fs), {x: (ff(y) if x == k else y) for x, y in i.items()}, "update-value")
            d = r.randint(50, 60)
            add("%s update-value-or(%s, %s, %d)" % (bs(r, i), lz(Sym(k), r), fs, d), {**i, k: ff(i[k]) if k in i else d}, "update-value-or")
        elif j == 19:
            ps = inner_paths(b)
            if ps:
                p = r.choice(ps)
                v = gen_scalar(r)
                add("%s alter(%s, %s)" % (B, sl(p), lz(v, r)), alter(b, p, lambda _: v), "alter")
                add("%s update(%s, c9pairup(1))" % (B, sl(p)), alter(b, p, lambda x: [1, x]), "update")
        elif j == 20:
            p = tuple(ks(r, r.randint(0, 4)))
            v = gen_scalar(r)
            add("tongue(%s, %s)" % (sl(p), lz(v, r)), tongue(p, v), "tongue")
        elif j == 21:
            ps = [p for p in inner_paths(b) if isinstance(at(b, p), dict)] + [()]
            p = r.choice(ps)
            if r.random() < .4:
                p = p + tuple(ks(r, r.randint(1, 2)))
                try:
                    x = b
                    for q in p:
                        if not isinstance(x, dict):
                            raise KeyError
                        x = x.get(q, {})
                    if not isinstance(x, dict):
                        raise KeyError
                except KeyError:
                    return
            base = b
            for q in p:
                base = base.get(q, {})
            v = overlap(base) if isinstance(base, dict) else {"n": 1}
            add("%s merge-at(%s, %s)" % (B, sl(p), bs(r, v)), merge_at(b, p, v, lambda x, y: {**x, **y}), "merge-at")
            add("%s deep-merge-at(%s, %s)" % (B, sl(p), bs(r, v)), merge_at(b, p, v, deep_merge), "deep-merge-at")
        elif j == 22:
            # few key names so that they recur at several depths, through lists too
            def nest(d):
                out = {}
                for k in r.sample(["aa", "bb", "cc", "dd"], r.randint(0, 3)):
                    q = r.random()
                    out[k] = nest(d - 1) if d and q < .5 else [nest(d - 1) if r.random() < .6 else 1 for _ in range(r.randint(0, 2))] if d and q < .65 else r.randint(0, 9)
                return out
            n = nest(3)
            k = r.choice(["aa", "bb", "cc"])
            hits = [(p + (k,), v[k]) for p, v in walk_blocks(n) if k in v]
            add("deep-find(%s, %s)" % (sym(k), to_eu(n, r)), [v for _, v in hits], "deep-find")
            add("%s deep-find-first(%s, :none)" % (to_eu(n, r), sym(k)), hits[0][1] if hits else Sym("none"), "deep-find-first")
            add("%s deep-find-paths(%s)" % (to_eu(n, r), sym(k)), [[Sym(x) for x in p] for p, _ in hits], "deep-find-paths")
            add("deep-fold(c10emit, c10next, 0, %s)" % to_eu(n, r), [[len(p), len(v)] for p, v in walk_blocks(n)], "deep-fold")
            q = r.choice(["aa", "aa.bb", "bb.*", "**.cc", "aa.*.bb", "*.aa", "dd", "aa.**.cc", "**"])
            res = query(q, n)
            if len({p for p, _ in res}) == len(res):
                add("deep-query(%s, %s)" % (strlit(q), to_eu(n, r)), [v for _, v in res], "deep-query " + q)
                add("%s deep-query-paths(%s)" % (to_eu(n, r), strlit(q)), [[Sym(x) for x in p] for p, _ in res], "deep-query-paths")
                add("%s deep-query-first(%s, :none)" % (to_eu(n, r), strlit(q)), res[0][1] if res else Sym("none"), "deep-query-first")
        elif j == 23:
            v = blk(r, 3, leaf=lambda r: r.choice([1, 2.5, "s", Sym("drop"), True, None]))
            if "null" in repr(v).lower() and False:
                return
            add("deep-transform(c10rule, %s)" % bs(r, v), transform(v), "deep-transform")
        elif j == 24:
            # self reference and independence: a derived block leaves its source unchanged
            k = pick(b)
            x = {"src": b, "new": {**b, k: 77}, "again": b}
            cases.append(Case("{s10: %s  n10: merge(s10, {%s: 77})  x10: c10o([s10, n10, s10])}.x10" % (B, key(k)),
                              ordj([x["src"], x["new"], x["again"]]), kind="source unchanged"))
        elif j == 25:
            add("%s count-check" % B if False else "count(elements(%s))" % B, len(b), "size")
            add("merge(%s, {}) = %s" % (B, to_eu(b, r)), True, "merge identity")
            add("merge({}, %s) = %s" % (B, to_eu(b, r)), True, "merge identity")
            add("merge(%s, %s) = %s" % (B, to_eu(b, r), to_eu(b, r)), True, "merge idempotent")
        elif j == 26:
            i = [r.randint(-9, 9) for _ in range(r.randint(0, 9))]
            d = {}
            for v in i:
                d.setdefault("fizz" if v % 3 == 0 else "neg" if v < 0 else "other", []).append(v)
            add("group-by(c9tag, %s)" % lst(r, i), d, "group-by")
    for n in range(ctx.scale(150, 1000)):
        for j in range(27):
            one(j)
    cases.append(Case("{b: block([[:a, 1], [:a, 2]])}.[b.a, b elements count]", Pred(lambda g: g in ([2, 1], [1, 1]), "one entry per key"), kind="repeated keys"))
    r.shuffle(cases)
    run_cases(ctx, cases, header=HEADER, sig=lambda c: "block of repeated keys" if c.kind == "repeated keys" else None)
    return ctx.finish(min_distinct=3000)
