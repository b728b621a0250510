"""Reference model of eucalypt's numbers."""
import math, struct
from decimal import Decimal

IMIN, IMAX, UMAX = -2**63, 2**63 - 1, 2**64 - 1


def flit(f):
    """A float spelt in fixed notation (eucalypt has no exponent literals)."""
    s = format(Decimal(repr(f)), "f")
    return s if "." in s else s + ".0"


def lit(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v)
    if math.isinf(v) or math.isnan(v):
        raise ValueError
    if v != 0 and not 1e-30 < abs(v) < 1e30:
        return 'num("%r")' % v
    return flit(v)


class Bad(Exception):
    """The operation is documented to fail."""


def mk(i):
    if IMIN <= i <= UMAX:
        return i
    raise Bad("range")


def fin(f):
    if math.isinf(f) or math.isnan(f):
        raise Bad("domain")
    return f


def i64pair(a, b):
    return isinstance(a, int) and isinstance(b, int) and IMIN <= a <= IMAX and IMIN <= b <= IMAX


def ints(a, b):
    return isinstance(a, int) and isinstance(b, int)


def rng(a, b, r):
    if i64pair(a, b):
        if not IMIN <= r <= IMAX:
            raise Bad("range")
        return r
    return mk(r)


def fround(v):
    """Result of a float floor/trunc division: integer when it fits."""
    fin(v)
    if -2.0**63 <= v < 2.0**63:
        return int(v)
    return v


def tofloat(a):
    return float(a)


def fop(f, a, b):
    try:
        return fin(f(tofloat(a), tofloat(b)))
    except OverflowError:
        raise Bad("domain")


def add(a, b):
    return rng(a, b, a + b) if ints(a, b) else fop(lambda x, y: x + y, a, b)


def sub(a, b):
    return rng(a, b, a - b) if ints(a, b) else fop(lambda x, y: x - y, a, b)


def mul(a, b):
    return rng(a, b, a * b) if ints(a, b) else fop(lambda x, y: x * y, a, b)


def zero(b):
    if b == 0:
        raise Bad("zero")


def fdivf(x, y):
    try:
        return x / y
    except OverflowError:
        return math.inf


def div(a, b):
    zero(b)
    if ints(a, b):
        return rng(a, b, a // b)
    q = fin(fdivf(float(a), float(b)))
    return fround(float(math.floor(q)) if abs(q) < 2**60 else q)


def mod(a, b):
    zero(b)
    if ints(a, b):
        return rngmod(a, b, a % b)
    r = math.fmod(float(a), float(b))
    if r != 0 and (r < 0) != (b < 0):
        r += float(b)
    return fin(r)


def rngmod(a, b, r):
    if i64pair(a, b) and a == IMIN and b == -1:
        return REFUSE0
    return r


class _R0:
    """0, or a refusal: i64::MIN by -1."""

    def __repr__(self):
        return "0-or-refusal"


REFUSE0 = _R0()


def quot(a, b):
    zero(b)
    if ints(a, b):
        q = abs(a) // abs(b)
        return rng(a, b, q if (a < 0) == (b < 0) else -q)
    q = fin(fdivf(float(a), float(b)))
    return fround(float(math.trunc(q)) if abs(q) < 2**60 else q)


def rem(a, b):
    zero(b)
    if ints(a, b):
        r = abs(a) % abs(b)
        return rngmod(a, b, -r if a < 0 else r)
    return fin(math.fmod(float(a), float(b)))


def pdiv(a, b):
    zero(b)
    return fin(fdivf(float(a), float(b)))


def pow_(b, e):
    if ints(b, e) and e >= 0:
        if abs(b) <= 1:
            return b ** (2 + e % 2) if e > 4 else b ** e
        if e <= 70:
            r = b ** e
            if IMIN <= r <= IMAX or (b > IMAX and r <= UMAX):
                return r
    try:
        r = math.pow(float(b), float(e))
    except (OverflowError, ValueError):
        raise Bad("domain")
    return fin(r)


def bits(v):
    if isinstance(v, int):
        if not IMIN <= v <= IMAX:
            raise Bad("bits")
        return v
    if v == math.floor(v) and -2.0**63 <= v < 2.0**63:
        return int(v)
    raise Bad("bits")


def wrap(i):
    i &= UMAX
    return i - 2**64 if i > IMAX else i


def band(a, b): return bits(a) & bits(b)
def bor(a, b): return bits(a) | bits(b)
def bxor(a, b): return bits(a) ^ bits(b)
def bnot(a): return ~bits(a)


def shift(b):
    b = bits(b)
    if not 0 <= b < 64:
        raise Bad("shift")
    return b


def shl(a, b):
    return wrap(bits(a) << shift(b))


def shr(a, b):
    return bits(a) >> shift(b)


def popcount(a): return bin(bits(a) & UMAX).count("1")


def ctz(a):
    u = bits(a) & UMAX
    return 64 if u == 0 else (u & -u).bit_length() - 1


def clz(a): return 64 - (bits(a) & UMAX).bit_length()


def floor_(a): return a if isinstance(a, int) else (float(math.floor(a)) if abs(a) < 2**60 else a)
def ceil_(a): return a if isinstance(a, int) else (float(math.ceil(a)) if abs(a) < 2**60 else a)


def neg(a): return sub(0, a)
def abs_(a): return neg(a) if a < 0 else a


def lt(a, b): return a < b
def gt(a, b): return a > b
def le(a, b): return a <= b
def ge(a, b): return a >= b
def eq(a, b): return a == b
def ne(a, b): return a != b
def max_(a, b): return a if a > b else b   # refined by the check: either when equal
def min_(a, b): return a if a < b else b


INTERESTING = [0, 1, -1, 2, -2, 3, 7, -7, 10, 63, 64, 65, 100, 255, 256, -256, 1000, 2**31 - 1, 2**31, -2**31,
               2**32, 2**32 - 1, 2**53 - 1, 2**53, 2**53 + 1, -2**53 - 1, IMAX, IMIN, IMAX - 1, IMIN + 1,
               2**62, -2**62, 3037000499, 3037000500, -3037000500]
BIG = [2**63, 2**63 + 1, UMAX, UMAX - 1, 2**63 + 2**40 + 1]
FLOATS = [0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 1.5, 2.0, -2.5, 0.1, 0.2, 0.3, 1e-7, 123456.789, 1e15, 1e16, 1e22,
          2.0**53, 2.0**63, -2.0**63, 2.0**64, 1e300, -1e300, 1e-300, 5e-324, 1.7976931348623157e308, 4.5, 1e17]


def gen_int(r):
    k = r.random()
    if k < .35:
        return r.randint(-20, 20)
    if k < .65:
        return r.choice(INTERESTING)
    if k < .72:
        return r.choice(BIG)
    if k < .8:
        return r.randint(2**63, UMAX)
    b = r.randint(1, 63)
    return r.choice([1, -1]) * r.getrandbits(b)


def gen_float(r):
    k = r.random()
    if k < .35:
        return r.choice(FLOATS)
    if k < .6:
        return float(r.randint(-1000, 1000)) / r.choice([1, 2, 4, 8, 10, 100])
    if k < .8:
        return r.uniform(-1, 1) * 10 ** r.randint(-10, 20)
    while True:
        f = struct.unpack("<d", r.getrandbits(64).to_bytes(8, "little"))[0]
        if not (math.isinf(f) or math.isnan(f)):
            return f


def gen_num(r):
    return gen_int(r) if r.random() < .65 else gen_float(r)
