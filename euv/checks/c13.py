"""C13: date-times parse, print and compare consistently (model: Python datetime, proleptic Gregorian)."""
import datetime as D
from ..batch import *
from ..val import *
try:
    import zoneinfo
except ImportError:
    zoneinfo = None

HEADER = """
c13cmp(a, b): [a = b, a != b, a < b, a <= b, a > b, a >= b]
c13ord(b): [b lookup(:y), b lookup(:m), b lookup(:d), b lookup(:H), b lookup(:M), b lookup(:S), b lookup(:Z)]
"""
UTC = D.timezone.utc


def gen_off(r):
    return r.choice([0, 0, 0, 60, -60, 330, -300, 345, 840, -720, 765, -210, r.randint(-14 * 60, 14 * 60), r.randint(-23 * 60, 23 * 60)])


def gen_d(r, frac=.5):
    y = r.choice([1, 4, 99, 100, 400, 999, 1000, 1582, 1600, 1700, 1752, 1899, 1900, 1904, 1969, 1970, 1971, 1972, 1999, 2000, 2001, 2023, 2024, 2025,
                  2037, 2038, 2039, 2100, 2400, 9998, r.randint(2, 9998), r.randint(1900, 2100)])
    m = r.choice([1, 2, 2, 3, 12, r.randint(1, 12)])
    last = (D.date(y + (m == 12), m % 12 + 1, 1) - D.timedelta(days=1)).day if y < 9999 or m < 12 else 31
    d = r.choice([1, last, last, r.randint(1, last)])
    us = 0
    if r.random() < frac:
        us = r.choice([1, 10, 500000, 123000, 123456, 999999, 100, 999000, r.randrange(10**6), r.randrange(1000) * 1000])
    H, M, S = r.choice([(0, 0, 0), (23, 59, 59), (12, 0, 0), (r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))])
    return D.datetime(y, m, d, H, M, S, us, tzinfo=D.timezone(D.timedelta(minutes=gen_off(r))))


def off(d, colon=True):
    o = int(d.utcoffset().total_seconds()) // 60
    return "%s%02d%s%02d" % ("-" if o < 0 else "+", abs(o) // 60, ":" if colon else "", abs(o) % 60)


def stamp(d, sep="T", fr=None):
    f = ""
    if fr is not None:
        f = fr
    elif d.microsecond:
        f = ".%03d" % (d.microsecond // 1000) if d.microsecond % 1000 == 0 else ".%06d" % d.microsecond
    return "%04d-%02d-%02d%s%02d:%02d:%02d%s" % (d.year, d.month, d.day, sep, d.hour, d.minute, d.second, f)


def iso(d):
    return stamp(d) + off(d)


def instant(s):
    """Read either printed form; None when it is not one."""
    m = re.fullmatch(r"(-?\d{4})-(\d\d)-(\d\d)[T ](\d\d):(\d\d):(\d\d)(?:\.(\d+))? ?(?:([+-])(\d\d):?(\d\d)|Z|UTC)", s)
    if not m:
        return None
    us = int((m[7] or "0").ljust(6, "0")[:6])
    o = 0
    if m[8]:
        o = (int(m[9]) * 60 + int(m[10])) * (-1 if m[8] == "-" else 1)
    return D.datetime(*map(int, m.groups()[:6]), us, tzinfo=D.timezone(D.timedelta(minutes=o)))


import re


def same_dt(d):
    return Pred(lambda g: instant(g) == d and instant(g).utcoffset() == d.utcoffset(), "the date-time " + iso(d))


def spellings(r, d):
    """(text, meaning) pairs parse must agree on."""
    us = "%06d" % d.microsecond
    fr = r.choice(["." + us, "." + us + "000", "." + (us.rstrip("0") or "0")]) if d.microsecond else r.choice(["", "", ".0", ".000"])
    out = [(stamp(d, fr=fr) + off(d), d)]
    if d.utcoffset() == D.timedelta(0):
        out.append((stamp(d, fr=fr) + "Z", d))
    n = d.replace(tzinfo=UTC)
    out.append((stamp(d, fr=fr), n))
    out.append(("%04d-%02d-%02d" % (d.year, d.month, d.day), n.replace(hour=0, minute=0, second=0, microsecond=0)))
    out.append(("%04d%02d%02d" % (d.year, d.month, d.day), n.replace(hour=0, minute=0, second=0, microsecond=0)))
    out.append(("%04d%02d%02dT%02d%02d" % (d.year, d.month, d.day, d.hour, d.minute), n.replace(second=0, microsecond=0)))
    out.append(("%04d%02d%02dT%02d%02d%02d" % (d.year, d.month, d.day, d.hour, d.minute, d.second), n.replace(microsecond=0)))
    return out


def zdt(d, z=None, r=None):
    s = "%.6f" % (d.second + d.microsecond / 1e6) if d.microsecond else str(d.second)
    a = [str(d.year), str(d.month), str(d.day), str(d.hour), str(d.minute), s]
    if r and r.random() < .4:
        a = [lz(int(x), r, .6) if x.isdigit() else x for x in a]
    return 'cal.zdt(%s, "%s")' % (", ".join(a), z or off(d, r.random() < .5 if r else True))


def src(d, r):
    """Some expression denoting d."""
    k = r.randrange(4)
    if k == 0:
        return 't"%s"' % (stamp(d) + off(d))
    if k == 1:
        return 'cal.parse("%s")' % (stamp(d) + off(d))
    if k == 2:
        return zdt(d, r=r)
    f = {"y": d.year, "m": d.month, "d": d.day, "H": d.hour, "M": d.minute, "S": d.second + d.microsecond / 1e6 if d.microsecond else d.second, "Z": off(d, False)}
    ks = list(f)
    r.shuffle(ks)
    return "cal.datetime(%s)" % to_eu({k: f[k] for k in ks})


def gen(r):
    d = gen_d(r)
    C = []
    for t, m in spellings(r, d):
        C.append(Case('cal.parse(%s)' % lz(t, r), same_dt(m), kind="parse"))
        C.append(Case('cal.format(cal.parse("%s"))' % t, iso(m), kind="parse then format"))
    t, m = r.choice(spellings(r, d)[:4])
    if len(t) > 10 or "-" in t:
        C.append(Case('cal.format(t"%s")' % t, iso(m), kind="literal"))
        C.append(Case('t"%s" = cal.parse("%s")' % (t, t), True, kind="literal = parse"))
    e = src(d, r)
    C.append(Case("cal.format(%s)" % e, iso(d), kind="format"))
    C.append(Case("cal.parse(cal.format(%s)) = %s" % (e, src(d, r)), True, kind="format then parse"))
    C.append(Case("%s" % e, same_dt(d), kind="rendered"))
    C.append(Case("c13ord(cal.fields(%s))" % e,
                  Pred(lambda g, d=d: g[:5] == [d.year, d.month, d.day, d.hour, d.minute] and abs(g[5] - (d.second + d.microsecond / 1e6)) < 5e-8 and g[6] == off(d, False),
                       "fields of " + iso(d)), kind="fields"))
    C.append(Case("cal.format(cal.datetime(cal.fields(%s)))" % e, iso(d), kind="fields then datetime"))
    full = {"y": d.year, "m": d.month, "d": d.day, "H": d.hour, "M": d.minute, "S": d.second, "Z": off(d, False)}
    dflt = {"y": 1, "m": 1, "d": 1, "H": 0, "M": 0, "S": 0, "Z": "UTC"}
    keep = [k for k in full if r.random() < .5]
    m2 = {k: full[k] if k in keep else dflt[k] for k in full}
    try:
        o = 0 if m2["Z"] == "UTC" else d.utcoffset().total_seconds() // 60
        w = D.datetime(m2["y"], m2["m"], m2["d"], m2["H"], m2["M"], m2["S"], tzinfo=D.timezone(D.timedelta(minutes=o)))
        C.append(Case("cal.format(cal.datetime(%s))" % to_eu({k: full[k] for k in keep}), iso(w), kind="datetime defaults"))
    except ValueError:
        C.append(Case("cal.datetime(%s)" % to_eu({k: full[k] for k in keep}), Err(), kind="no such date"))
    # comparison: same instant in another offset, near instants, far ones
    k = r.random()
    try:
        if k < .4:
            b = d.astimezone(D.timezone(D.timedelta(minutes=gen_off(r))))
        elif k < .7:
            b = (d + r.choice([1, -1]) * D.timedelta(microseconds=r.choice([1, 1000, 10**6, 60 * 10**6, 3600 * 10**6]))).astimezone(D.timezone(D.timedelta(minutes=gen_off(r))))
        elif k < .8:
            b = d.replace(tzinfo=D.timezone(D.timedelta(minutes=gen_off(r))))
        else:
            b = gen_d(r)
    except OverflowError:
        b = d
    if b.year >= 1:
        C.append(Case("c13cmp(%s, %s)" % (src(d, r), src(b, r)), [d == b, d != b, d < b, d <= b, d > b, d >= b], kind="compare"))
        C.append(Case("[cal.format(min(%s, %s)), cal.format(max(%s, %s))]" % ((src(d, r), src(b, r)) * 2),
                      Pred(lambda g, d=d, b=b: instant(g[0]) == min(d, b) and instant(g[1]) == max(d, b), "min, max"), kind="min max"))
    ds = [gen_d(r) for _ in range(r.randint(0, 6))]
    for x in ds[:2]:
        ds.append(x.astimezone(UTC) if 1 < x.year < 9999 else x)
    C.append(Case("sort-zdts([%s]) map(cal.format)" % ", ".join(src(x, r) for x in ds), [iso(x) for x in sorted(ds)], kind="sort-zdts"))
    # epoch seconds
    lo, hi = -62135596800, 253402300799
    n = r.choice([0, -1, 1, 59, 60, 86399, 86400, -86400, 951782400, 2**31 - 1, 2**31, -2**31, lo, hi, r.randint(lo, hi), r.randint(-2**33, 2**33)])
    w = D.datetime(1970, 1, 1, tzinfo=UTC) + D.timedelta(seconds=n)
    C.append(Case("cal.ifields(%s)" % lz(n, r), {"y": w.year, "m": w.month, "d": w.day, "H": w.hour, "M": w.minute, "S": float(w.second), "Z": "+0000"}, kind="epoch"))
    C.append(Case("cal.format(cal.datetime(cal.ifields(%s)))" % to_eu(n), iso(w), kind="epoch then datetime"))
    # refusals
    C.append(r.choice([
        lambda: Case("cal.zdt(%d, %d, %d, 1, 2, 3, \"Z\")" % r.choice([(2023, 2, 29), (1900, 2, 29), (2024, 2, 30), (2024, 4, 31), (2024, 13, 1), (2024, 0, 1), (2024, 1, 0), (2100, 2, 29), (2024, 6, 32)]), Err(), kind="no such date"),
        lambda: Case("cal.zdt(2024, 1, 1, %d, %d, %d, \"Z\")" % r.choice([(24, 0, 0), (0, 60, 0), (0, 0, 61), (25, 0, 0), (99, 1, 1)]), Err(), kind="no such time"),
        lambda: Case("cal.zdt(2024, 1, 1, 1, 1, 1, %s)" % strlit(r.choice(["", "x", "+25:00", "Nowhere/City", "+1", "+01:60", "0100"])), Err(), kind="no such zone"),
        lambda: Case("cal.parse(%s)" % strlit(r.choice(["", "x", "2023-02-29", "2024-13-01", "2024-00-10", "2024-01-01T25:00:00Z", "2024-01-01T10:61:00Z", "20230229", "1900-02-29T00:00:00Z",
                                                        "2024-01-01T00:00:00+25:00", "2024-01-01 10", "yesterday", "2024-02-30T00:00:00Z", "2100-02-29"])), Err(), kind="not a date-time"),
        lambda: Case("cal.ifields(%s)" % r.choice(["9223372036854775807", "(0 - 9223372036854775807)", "1.5", "100000000000000", '"0"']), Err(), kind="not a timestamp"),
        lambda: Case("cal.zdt(%s, 1, 1, 0, 0, 0, \"Z\")" % r.choice(["2024.5", "99999999999", '"2024"']), Err(), kind="not a year"),
    ])())
    # named zones
    z = r.choice(ZONES)
    if z and 1971 <= d.year <= 2036:
        zi = zoneinfo.ZoneInfo(z)
        loc = d.replace(tzinfo=None, microsecond=0)
        a0, a1 = loc.replace(tzinfo=zi, fold=0), loc.replace(tzinfo=zi, fold=1)
        back = a0.astimezone(UTC).astimezone(zi).replace(tzinfo=None)
        if a0.utcoffset() == a1.utcoffset() and back == loc:
            C.append(Case("cal.format(%s)" % zdt(loc, z, r), stamp(loc) + off(a0), kind="named zone"))
    return C


ZONES = [None]
if zoneinfo:
    ZONES = [z for z in ("UTC", "Europe/London", "America/New_York", "Asia/Tokyo", "Asia/Kolkata", "Europe/Paris", "Australia/Sydney") if z in zoneinfo.available_timezones()] or [None]


def main():
    ctx = Ctx("C13", rule="distinct evaluated expressions over generated date-times, offsets and spellings")
    n = ctx.scale(150, 4000)
    cases = []
    for i in range(n):
        cases += gen(ctx.sub(i))
    run_cases(ctx, cases, HEADER, per=120, order=False)
    return ctx.finish(min_distinct=500)
