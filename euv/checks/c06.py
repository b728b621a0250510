"""C06: arithmetic is exact or refuses."""
from ..batch import *
from .. import num as N

BIN = {
    "+": N.add, "-": N.sub, "*": N.mul, "/": N.div, "%": N.mod, "÷": N.pdiv, "^": N.pow_,
    "quot": N.quot, "rem": N.rem, "pow": N.pow_, "div": N.div, "mod": N.mod,
    "bit.and": N.band, "bit.or": N.bor, "bit.xor": N.bxor, "bit.shl": N.shl, "bit.shr": N.shr,
    "<": N.lt, ">": N.gt, "<=": N.le, ">=": N.ge, "=": N.eq, "!=": N.ne, "≤": N.le, "≥": N.ge, "≠": N.ne,
    "max": N.max_, "min": N.min_,
}
UN = {
    "floor": N.floor_, "ceiling": N.ceil_, "negate": N.neg, "abs": N.abs_, "∸": N.neg, "inc": lambda a: N.add(a, 1),
    "dec": lambda a: N.sub(a, 1), "bit.not": N.bnot, "bit.popcount": N.popcount, "bit.ctz": N.ctz, "bit.clz": N.clz,
    "zero?": lambda a: a == 0, "pos?": lambda a: a > 0, "neg?": lambda a: a < 0,
}
OPS = [o for o in BIN if not o[0].isalpha()]
HEADER = """
` { export: :suppress }
h: { """ + ", ".join(
    "o%d(l, r): l %s r" % (i, o) for i, o in enumerate(OPS)) + """ }
` { export: :suppress }
vv(x): x
"""


def close(a, b):
    return a == b or (b != 0 and abs(a - b) <= abs(b) * 4e-16)


def cmp(got, want):
    if want is N.REFUSE0:
        return got == 0
    if isinstance(want, float):
        return type(got) is float and got == want
    if isinstance(want, tuple) and want[0] == "pow":
        return type(got) is type(want[1]) and (close(got, want[1]) if isinstance(got, float) else got == want[1])
    if isinstance(want, tuple) and want[0] == "either":
        return any(same(got, w) for w in want[1:])
    return same(got, want)


def expr(r, op, a, b, A=None, B=None):
    """One of many shapes through which the same operation reaches the machine."""
    A, B = A or N.lit(a), B or N.lit(b)
    if op in OPS:
        i = OPS.index(op)
        k = r.randrange(10)
        if k < 3:
            # a leading minus would read as a section or a literal: parenthesise
            return "%s %s %s" % (A, op, B)
        if k == 3:
            return "h.o%d(%s, %s)" % (i, A, B)
        if k == 4:
            return "%s (%s %s)" % (A, op, B)
        if k == 5:
            return "{ x: %s y: %s z: x %s y }.z" % (A, B, op)
        if k == 6:
            return "[%s] map(%s %s) head" % (A, op, B)
        if k == 7:
            return "zip-with((%s), [%s], [%s]) head" % (op, A, B)
        if k == 8:
            return "(vv(%s) %s vv(%s))" % (A, op, B)
        return "%s ((_ %s _)(%s))" % (B, op, A)
    k = r.randrange(4)
    if k == 0:
        return "%s(%s, %s)" % (op, A, B)
    if k == 1:
        return "%s %s(%s)" % (B, op, A)
    if k == 2:
        return "[%s] map(%s(%s)) head" % (B, op, A)
    return "{ f: %s, z: f(%s, %s) }.z" % (op, A, B)


def case2(r, op, a, b, **kw):
    e = expr(r, op, a, b, **kw)
    try:
        w = BIN[op](a, b)
        if op in ("^", "pow") and not isinstance(w, int):
            w = ("pow", w)
        if op in ("max", "min") and a == b:
            w = ("either", a, b)
    except N.Bad:
        w = Err()
    return Case(e, w, kind=op)


def numeric_tree(r, d):
    """A random arithmetic expression and its value (None when it fails)."""
    if d == 0 or r.random() < .15:
        v = r.choice([r.randint(-9, 9), r.randint(-10**6, 10**6), N.gen_num(r), r.randint(-30, 30) / 4])
        return N.lit(v), v
    op = r.choice(["+", "-", "*", "/", "%", "÷", "+", "-", "*"])
    l, lv = numeric_tree(r, d - 1)
    s, sv = numeric_tree(r, d - 1)
    v = BIN[op](lv, sv)
    if v is N.REFUSE0:
        raise N.Bad("x")
    return "(%s %s %s)" % (l, op, s), v


def main():
    ctx = Ctx("C06", rule="random operands (edges of i64/u64/f64 and random) x every numeric operation x many syntactic "
              "shapes; distinct by expression text; expected value from an exact Python integer/IEEE model")
    r = ctx.sub("ops")
    cases = []
    per_op = ctx.scale(200, 800)
    for op in BIN:
        for _ in range(per_op):
            a, b = N.gen_num(r), N.gen_num(r)
            if op in ("^", "pow"):
                b = r.choice([r.randint(0, 12), r.randint(0, 70), r.randint(-5, 5), 0.5, -1, 2, N.gen_num(r)])
                if r.random() < .6:
                    a = r.randint(-12, 12)
                elif r.random() < .6:
                    a = r.choice([0, 1, -1, -1, -1, 2])
                    b = r.choice([r.getrandbits(r.randint(1, 62)), 2**32 + r.randint(-3, 3), 2**31 + r.randint(-3, 3), N.IMAX - r.randint(0, 1)])
            if "sh" in op:
                b = r.choice([r.randint(0, 63), r.randint(0, 63), -1, 64, 65, 0, 63, 5.0])
            if op.startswith("bit") and r.random() < .7:
                a = r.choice([r.getrandbits(63), -r.getrandbits(63), r.randint(-300, 300), N.IMIN, N.IMAX])
                if "sh" not in op:
                    b = r.choice([r.getrandbits(63), -r.getrandbits(63), r.randint(-300, 300), N.IMIN, N.IMAX])
            if op in ("/", "%", "quot", "rem", "div", "mod") and r.random() < .5:
                a, b = r.randint(-60, 60), r.choice([1, -1, 2, -2, 3, -3, 5, -7, 10, N.IMAX, N.IMIN])
            if r.random() < .05:
                b = a
            cases.append(case2(r, op, a, b))
        # operands around the overflow boundary
        for _ in range(per_op // 4):
            if op in ("+", "-", "*"):
                e = r.choice([N.IMAX, N.IMIN, N.UMAX, 2**63])
                a = r.choice([r.randint(1, 2**31), r.randint(-2**31, -1), 3, 2])
                d = r.randint(-2, 2)
                if op == "+":
                    b = e - a + d
                elif op == "-":
                    b = a - e + d
                else:
                    b = e // a + d
                if N.IMIN <= b <= N.UMAX:
                    cases.append(case2(r, op, a, b))
    for op, f in UN.items():
        for _ in range(per_op):
            a = N.gen_num(r)
            if op.startswith("bit") and r.random() < .7:
                a = r.choice([r.getrandbits(63), -r.getrandbits(63), 1 << r.randrange(63), 0, -1, N.IMIN])
            A = N.lit(a)
            e = r.choice(["%s(%s)" % (op, A), "%s %s" % (A, op), "[%s] map(%s) head" % (A, op)]) if op != "∸" else "∸ (%s)" % A
            try:
                w = f(a)
            except N.Bad:
                w = Err()
            cases.append(Case(e, w, kind=op))
    # brackets
    for _ in range(per_op // 4):
        a = N.gen_float(r)
        cases.append(Case("⌈%s⌉" % N.lit(a), N.ceil_(a), kind="⌈⌉"))
        cases.append(Case("⌊%s⌋" % N.lit(a), N.floor_(a), kind="⌊⌋"))
    # literals and parsing: the number survives reading and printing
    for _ in range(ctx.scale(300, 3000)):
        a = N.gen_num(r)
        if a == 0 and isinstance(a, float):
            continue
        k = r.randrange(3)
        if k == 0:
            cases.append(Case(N.lit(a), a, kind="literal"))
        elif k == 1:
            cases.append(Case('num("%s")' % (repr(a) if isinstance(a, float) else a), a, kind="num"))
        else:
            cases.append(Case('num(str.of(%s))' % N.lit(a), a, kind="num-str"))
    for bad in ["", " ", "abc", "1.2.3", "--1", "1e", "0x10", "1 2", "NaN", "inf", "1e999", "١٢", "+1", "1_000", ".5", "5."]:
        cases.append(Case('num("%s")' % bad, Err(), kind="num-bad"))
    # aggregate functions
    for _ in range(ctx.scale(60, 600)):
        xs = [r.choice([r.randint(-10**6, 10**6), r.randint(-50, 50)]) for _ in range(r.randint(1, 12))]
        L = "[%s]" % ", ".join(map(str, xs))
        p = 1
        for x in xs:
            p *= x
        cases.append(Case("%s sum" % L, sum(xs), kind="sum"))
        cases.append(Case("%s foldl(+, 0)" % L, sum(xs), kind="fold"))
        cases.append(Case("%s foldr(-, 0)" % L, _foldr(xs), kind="fold"))
        if abs(p) <= N.IMAX and all(abs(x) < 2**31 for x in xs) and _prefix_ok(xs):
            cases.append(Case("%s product" % L, p, kind="product"))
        cases.append(Case("%s max-of" % L, max(xs), kind="max-of"))
        cases.append(Case("%s min-of" % L, min(xs), kind="min-of"))
    # trees
    n = ctx.scale(1500, 12000)
    while n:
        try:
            e, v = numeric_tree(r, r.randint(2, 5))
        except (N.Bad, OverflowError):
            continue
        n -= 1
        cases.append(Case(e, v, kind="tree"))
    # tight loops through user recursion: same operations on accumulators
    for _ in range(ctx.scale(30, 300)):
        n0, step, m = r.randint(50, 400), r.randint(1, 9), r.randint(2, 10**6)
        acc = r.randint(0, 100)
        v, i = acc, n0
        while not i <= 0:
            v = (v * 31 + i) % m
            i -= step
        cases.append(Case("lp(%d, %d)" % (n0, acc), v, kind="loop",
                          pre="", key="lp%d %d %d %d" % (n0, step, m, acc)))
        cases[-1].expr = "{ lp(i, a): if(i <= 0, a, lp(i - %d, (a * 31 + i) %% %d)) z: lp(%d, %d) }.z" % (step, m, n0, acc)
    errs = [c for c in cases if isinstance(c.want, Err)]
    goods = [c for c in cases if not isinstance(c.want, Err)]
    r.shuffle(errs)
    r.shuffle(goods)
    errs = errs[:ctx.scale(400, 3000)]
    run_cases(ctx, goods + errs, header=HEADER, cmp=cmp)
    return ctx.finish(min_distinct=1000)


def _foldr(xs):
    v = 0
    for x in reversed(xs):
        v = x - v
    return v


def _prefix_ok(xs):
    for d in (1, -1):
        p = 1
        for x in xs[::d]:
            p *= x
            if abs(p) > N.IMAX:
                return False
    return True
