"""C32: metadata stays with its value; assertions pass their value through or fail."""
from ..batch import *
from ..val import *

HEADER = """
c32id(x): x
c32snd(a, b): b
c32wrap(x): {held: x}
c32k: :kk
"""
SPECIAL = {"tag", "export", "target", "import", "doc", "format", "assert", "embedding", "parse-embed", "fixity", "precedence", "associates", "trace", "prelude", "requires",
           "deprecated", "replaced-by", "blame", "type", "type-def", "types", "monad", "validations", "verify", "blame", "args", "flag", "short", "bind", "return", "title", "strict"}


def mblock(r, d=1):
    while True:
        m = {k: gen(r, d) for k in {r.choice(["unit", "note", "of", "sev", "k1", "k2", "origin", "é"]) for _ in range(r.randint(1, 3))}}
        if not set(m) & SPECIAL:
            return m


def main():
    c = Ctx("C32", rule="a value with metadata put on, carried about and asked for, or an assertion on a value")
    r = c.sub("cases")
    cases = []

    def add(e, want, kind, pre=""):
        cases.append(Case(e, want, kind=kind, pre=pre))
        c.cov(kind)

    n = c.scale(260, 2500)
    for i in range(n):
        v = gen(r, 2)
        m, m2, m3 = mblock(r), mblock(r), mblock(r)
        alone = v is None or isinstance(v, bool)  # inlined as declared: see the probes below
        V, M, M2, M3 = (to_eu(x, r) for x in (v, m, m2, m3))
        P = "(%s)" % V
        W = "(%s // %s)" % (P, M)
        # asked for directly, and as carried about
        carry = r.choice(["%s", "(%s c32id)", "c32snd(1, %s)", "{a: %s}.a", "([%s] head)", "([1, %s] second)", "c32wrap(%s).held", "({a: 1 b: %s} lookup(:b))", "(if(true, %s, 9))",
                          "([%s] map(identity) first)", "({z: %s, y: 1}.z)", "({k: %s} merge({k: 1}) lookup(:k))", "({k: %s} elements head second)", "([0, %s, 2] nth(1))",
                          "(identity(%s))", "([7, 8] cons(%s) head)", "({x: { y: %s }}.x.y)", "(cond([false => 1, %s]))", "([%s, 3] reverse last)", "(foldl(c32snd, 0, [1, %s]))", "([[%s]] concat head)"])
        add("%s meta" % (carry % W), m, "meta of a value carried about")
        add("(%s) raw-meta" % (carry % W), m, "raw-meta")
        add("meta%s" % P, {}, "meta of a bare value") if not isinstance(v, dict) or True else None
        # layers
        add("((%s // %s) // %s) meta" % (P, M, M2), {**m, **m2}, "layers merge, outer winning")
        add("(%s // %s // %s // %s) meta" % (P, M, M2, M3), {**m, **m2, **m3}, "layers merge, outer winning")
        add("(%s // %s // %s) raw-meta" % (P, M, M2), m2, "raw-meta of layers")
        add("((%s // %s) %s) meta" % (P, M, "merge-meta(%s)" % M2), {**m, **m2}, "merge-meta")
        add("(%s // %s //<< %s) raw-meta" % (P, M, M2), {**m, **m2}, "merged layer")
        add("(%s with-meta(%s)) meta" % (P, M) if r.random() < .5 else "(with-meta(%s, %s)) meta" % (M, P), m, "with-meta")
        sy = r.choice(["odd", "mark", "x1"])
        add("(%s // %s // :%s) meta" % (P, M, sy), Sym(sy), "an opaque layer outside")
        add("(%s // :%s // %s) meta" % (P, sy, M), m, "a block layer over an opaque one")
        # on a declaration
        nm = "d32x%d" % i
        q = r.random()
        if alone:
            pass
        elif q < .4:
            pre = "` %s\n%s: %s // %s" % (M2, nm, P, M)
            add("%s meta" % nm, {**m, **m2}, "declaration metadata", pre)
        elif q < .7:
            s = r.choice(["some words", "of é", "a: b"])
            pre = '` "%s"\n%s: %s // %s' % (s, nm, P, M)
            add("%s meta" % nm, {**m, "doc": s}, "doc string", pre)
        else:
            pre = "` %s\n%s(x): [x, %s]" % (M2, nm, P)
            add("[%s meta, %s(5), (%s // %s)(6), (%s // %s) meta]" % (nm, nm, nm, M, nm, M), [m2, [5, v], [6, v], {**m2, **m}], "metadata of a function", pre)
        if not alone:
            add("{` %s\n q: %s}.q meta" % (M, P), m, "metadata in a block")
        # out of the way
        add(W, v, "renders as the value")
        add("[%s = %s, %s = %s, %s = %s]" % (W, P, P, W, W, "(%s // %s)" % (P, M2)), [True] * 3, "equal to the value")
        add("[{a: %s}, [%s]]" % (W, W), [{"a": v}, [v]], "renders inside structures")
        a, b = r.randint(-99, 99), r.randint(1, 99)
        A, B = "(%d // %s)" % (a, M), "(%d // %s // %s)" % (b, M2, M)
        add("[%s + %s, %s - %s, %s * %s, %s < %s, min(%s, %s), %s > %s, max(%s, 3), negate(%s), abs(%s), %s zero?, %s number?]" % (A, B, A, B, A, B, A, B, A, B, A, B, A, A, A, A, A),
            [a + b, a - b, a * b, a < b, min(a, b), a > b, max(a, 3), -a, abs(a), a == 0, True], "arithmetic")
        s = gen_str(r, True)
        S = "(%s // %s)" % (strlit(s), M)
        add("[%s str.letters count, %s ++ [], str.of(%s), %s = %s, {k: %s}.k string?]".replace("%s ++ [], ", "") % (S, S, S, strlit(s), S), [len(s), s, True, True], "strings")
        add('{ x: %s r: "<{x}>" }.r' % A, "<%d>" % a, "interpolation")
        l = [r.randint(0, 9) for _ in range(r.randint(1, 6))]
        L = "(%s // %s)" % (json.dumps(l), M)
        add("[%s count, %s head, %s tail, %s reverse, %s map(+ 1), %s ++ %s, %s list?, foldl(+, 0, %s), %s nil?, %s sort-nums, %s list?]" % ((L,) * 12),
            [len(l), l[0], l[1:], l[::-1], [x + 1 for x in l], l + l, True, sum(l), False, sorted(l), True], "lists")
        bl = {"p": r.randint(0, 9), "q": r.randint(0, 9)}
        Bk = "({p: %d q: %d} // %s)" % (bl["p"], bl["q"], M)
        add("[%s.p, %s lookup(:q), %s has(:p), %s keys, %s values, %s block?, %s << {z: 1}, {z: 1} << %s, merge(%s, {p: 3}), %s.(p + q), %s map-values(+ 1)]" % ((Bk,) * 11),
            [bl["p"], bl["q"], True, ["p", "q"], [bl["p"], bl["q"]], True, {**bl, "z": 1}, {"z": 1, **bl}, {**bl, "p": 3}, sum(bl.values()), {k: x + 1 for k, x in bl.items()}], "blocks")
        add("[if((true // %s), 1, 2), not(false // %s), (true // %s) ∧ (true // %s), (null // %s) null?, (:s // %s) = :s, str.of(:s // %s)]" % (M, M, M, M2, M, M, M),
            [1, True, True, True, True, "s"] if False else [1, True, True, True, True, "s"], "booleans, null and symbols")
        # never evaluated unless asked for
        add("(%s // {k: panic(\"evaluated\")}) c32id" % P, v, "metadata not evaluated")
        add("((%s // {k: panic(\"evaluated\") l: 3}) meta).l" % P, 3, "metadata not evaluated")
        # assertions
        ok = r.random() < .6
        w = v if ok else [v, 1]
        Wv = to_eu(w, r)
        ex = "(%s)" % Wv
        opn = r.choice(["eq", "eqv", "pred", "predv", "bang", "assert"])
        if opn == "eq":
            add("%s //= %s" % (P, ex), True if ok else Err("assertion failed"), "expectation")
        elif opn == "eqv":
            add("%s //=> %s" % (P, ex), v if ok else Err("assertion failed"), "assertion")
        elif opn == "pred":
            add("%s //=? (= %s)" % (P, ex), True if ok else Err("assertion failed"), "expectation")
        elif opn == "predv":
            add("%s //=?> (= %s)" % (P, ex), v if ok else Err("assertion failed"), "assertion")
        elif opn == "bang":
            add("(%s = %s) //!" % (P, ex), True if ok else Err("assertion failed"), "expectation")
        else:
            add("%s assert((= %s), \"no: %d\")" % (P, ex, i), v if ok else Err("no: %d" % i), "assertion")
        add("((%s // %s) //=> %s) meta" % (P, M, P), m, "an assertion keeps metadata")
    for i, (decl, nm) in enumerate([("%s: true", "t32"), ("%s: null", "n32"), ("%s: map", "m32"), ("%s(x): x + 1", "f32")]):
        m = mblock(r, 0)
        add("%s meta" % nm, m, "inlined declaration", "` %s\n%s" % (to_eu(m, r), decl % nm))
    run_cases(c, cases, sig=lambda k: "inlined declaration" if k.kind == "inlined declaration" else None, header=HEADER, cmp=lambda got, want: same(got, to_json(want), False), per=60)
    return c.finish(min_distinct=1500)
