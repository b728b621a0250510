"""C07: equality and ordering are coherent."""
import copy, datetime
from ..batch import *
from ..val import *
from .. import num as N


def near(r, v):
    """A value equal or nearly equal to v."""
    k = r.random()
    if k < .35:
        return copy.deepcopy(v)
    if isinstance(v, bool) or v is None:
        return r.choice([True, False, None, 0, "", [], {}, "true", "null", Sym("true")])
    if isinstance(v, int):
        return r.choice([v, float(v) if abs(v) < 2**60 else v, v + 1 if v < N.UMAX else v, str(v), -v if abs(v) < 2**62 else v, [v]])
    if isinstance(v, float):
        return r.choice([v, int(v) if abs(v) < 2**62 else v, -v, v * (1 + 2e-16) if abs(v) < 1e300 else v, v + 1])
    if isinstance(v, Sym):
        return r.choice([v, v.name(), Sym(v.name() + "x")])
    if isinstance(v, str):
        return r.choice([v, v + " ", v[:-1], v.upper(), v.lower(), Sym(v) if plain_key(v) else v, [v], v + "\u0301"])
    if isinstance(v, Dt):
        if r.random() < .6 and 1900 < v.d.year < 9000:
            return Dt(v.d.astimezone(datetime.timezone(datetime.timedelta(minutes=r.choice([0, 60, -90, 330])))))
        return Dt(v.d.replace(second=(v.d.second + 1) % 60))
    if isinstance(v, list):
        w = copy.deepcopy(v)
        if w and k < .7:
            i = r.randrange(len(w))
            w[i] = near(r, w[i])
        elif k < .8:
            w.append(r.choice([None, 0, w[0] if w else 1]))
        elif w:
            w.pop(r.randrange(len(w)))
        return w
    if isinstance(v, dict):
        w = dict(copy.deepcopy(v))
        ks = list(w)
        if ks and k < .65:
            i = r.choice(ks)
            w[i] = near(r, w[i])
        elif k < .75:
            w[gen_key(r)] = 1
        elif k < .9 and ks:
            r.shuffle(ks)
            w = {k2: w[k2] for k2 in ks}
        elif ks:
            w.pop(r.choice(ks))
        return w
    return v


def spell(r, v, d=0):
    """Source whose value is v, built in one of several ways."""
    k = r.random()
    if d < 3 and k < .45:
        if isinstance(v, dict) and v:
            j = r.randrange(5)
            items = list(v.items())
            if j == 0:
                return "(block([%s]))" % ", ".join("[%s, %s]" % (sym(a), spell(r, b, d + 1)) for a, b in items)
            if j == 1:
                i = r.randint(0, len(items))
                a, b = dict(items[:i]), dict(items[i:])
                return "merge(%s, %s)" % (spell(r, a, d + 1), spell(r, b, d + 1))
            if j == 2:
                a, b = items[0]
                return "set-value(%s, %s, %s)" % (sym(a), spell(r, b, d + 1), to_eu({**{a: 0}, **v}, r)) if not has_dt(v) else to_eu(v, r)
            if j == 3:
                return "(%s (%s))" % ("{%s: 0}" % key(items[0][0]), to_eu(v, r)) if len(items) else "{}"
            return "map-values(identity, %s)" % to_eu(v, r)
        if isinstance(v, list):
            j = r.randrange(5)
            if j == 0:
                i = r.randint(0, len(v))
                return "(%s ++ %s)" % (spell(r, v[:i], d + 1), spell(r, v[i:], d + 1))
            if j == 1 and v:
                return "cons(%s, %s)" % (spell(r, v[0], d + 1), spell(r, v[1:], d + 1))
            if j == 2:
                return "reverse(%s)" % to_eu(list(reversed(v)), r)
            if j == 3:
                return "map(identity, %s)" % to_eu(v, r)
            return "take(%d, %s)" % (len(v), to_eu(v + [1], r))
        if isinstance(v, Sym):
            return 'sym(%s)' % strlit(v.name())
        if isinstance(v, str) and v:
            i = r.randint(0, len(v))
            return '([%s, %s] str.join-on(""))' % (strlit(v[:i], r), strlit(v[i:], r))
        if isinstance(v, bool):
            return "(1 = %d)" % (1 if v else 2)
        if isinstance(v, int) and abs(v) < 2**62:
            return "(%d + %d)" % (v - 3, 3)
    if d < 3 and .45 < k < .55:
        return "identity(%s)" % to_eu(v, r)
    if d < 3 and .55 < k < .62 and isinstance(v, (list, dict, str)) and not isinstance(v, Sym):
        return '(%s // {note: "m"})' % to_eu(v, r)
    return to_eu(v, r)


def has_dt(v):
    if isinstance(v, Dt):
        return True
    if isinstance(v, dict):
        return any(map(has_dt, v.values()))
    if isinstance(v, list):
        return any(map(has_dt, v))
    return False


def g(r, d=3):
    if r.random() < .08:
        return gen_dt(r)
    v = gen(r, d)
    return v


def main():
    ctx = Ctx("C07", rule="pairs of random values and near-copies of them, spelt literally and built at run time, under "
              "= != and the five ordering operators, min/max and sorts; distinct by expression text")
    r = ctx.sub("eq")
    cases = []
    for _ in range(ctx.scale(2500, 25000)):
        a = g(r)
        b = near(r, a) if r.random() < .8 else g(r)
        w = veq(a, b)
        A, B = spell(r, a), spell(r, b)
        k = r.randrange(6)
        if k == 0:
            cases.append(Case("%s != %s" % (A, B), not w, kind="!="))
        elif k == 1:
            cases.append(Case("%s = %s" % (B, A), w, kind="= (swapped)"))
        elif k == 2:
            cases.append(Case("[%s] = [%s]" % (A, B), w, kind="= (list)"))
        elif k == 3:
            cases.append(Case("{k: %s} = {k: %s}" % (A, B), w, kind="= (block)"))
        elif k == 4:
            cases.append(Case("%s ≠ %s" % (A, B), not w, kind="≠"))
        else:
            cases.append(Case("%s = %s" % (A, B), w, kind="= equal" if w else "= unequal"))
    for _ in range(ctx.scale(300, 3000)):
        a = g(r)
        A = spell(r, a)
        cases.append(Case("{v: %s z: v = v}.z" % A, True, kind="reflexive"))
        cases.append(Case("%s = %s" % (to_eu(a, r), spell(r, a)), True, kind="built equals literal"))
    # order
    def comparable(kind):
        if kind == 0:
            return N.gen_num(r)
        if kind == 1:
            return gen_str(r)
        if kind == 2:
            return Sym(gen_key(r, .3))
        return gen_dt(r)

    def lt(a, b):
        if isinstance(a, Dt):
            return a.d < b.d
        if isinstance(a, Sym):
            return a.name() < b.name()
        return a < b
    OPS = {"<": lambda a, b: lt(a, b), ">": lambda a, b: lt(b, a), "<=": lambda a, b: not lt(b, a),
           ">=": lambda a, b: not lt(a, b), "≤": lambda a, b: not lt(b, a), "≥": lambda a, b: not lt(a, b)}
    for _ in range(ctx.scale(1500, 15000)):
        kind = r.randrange(4)
        a = comparable(kind)
        b = near(r, a) if r.random() < .5 else comparable(kind)
        if type(a) is not type(b) and not (kind == 0 and isinstance(b, (int, float)) and not isinstance(b, bool)):
            continue
        if isinstance(b, bool) or isinstance(b, list):
            continue
        o = r.choice(list(OPS))
        cases.append(Case("%s %s %s" % (spell(r, a), o, spell(r, b)), OPS[o](a, b), kind=o))
        if r.random() < .3:
            m = r.choice(["max", "min"])
            w = (b if lt(a, b) else a) if m == "max" else (a if lt(a, b) else b)
            cases.append(Case("%s(%s, %s) = %s" % (m, spell(r, a), spell(r, b), to_eu(w)), True, kind=m))
    for _ in range(ctx.scale(120, 600)):
        a, b = gen_scalar(r), gen_scalar(r)
        ka = 0 if isinstance(a, (int, float)) and not isinstance(a, bool) else 1 if type(a) is str else 2 if isinstance(a, Sym) else 5
        kb = 0 if isinstance(b, (int, float)) and not isinstance(b, bool) else 1 if type(b) is str else 2 if isinstance(b, Sym) else 6
        if ka != kb:
            cases.append(Case("%s %s %s" % (to_eu(a), r.choice(list(OPS)), to_eu(b)), Err(), kind="cross-type order"))
    # sorts
    import functools
    for _ in range(ctx.scale(600, 5000)):
        kind = r.randrange(4)
        xs = [comparable(kind) for _ in range(r.choice([0, 1, 2, 3, 5, 9, 17, 30]))]
        if xs and r.random() < .6:
            xs += [near(r, r.choice(xs)) for _ in range(4)]
            xs = [x for x in xs if not isinstance(x, (bool, list)) and (type(x) is type(xs[0]) or kind == 0 and isinstance(x, (int, float)))]
            r.shuffle(xs)
        cmpf = functools.cmp_to_key(lambda a, b: -1 if lt(a, b) else 1 if lt(b, a) else 0)
        w = sorted(xs, key=cmpf)
        fns = ["qsort(<)", "sort-by(identity, <)"] + [["sort-nums"], ["sort-strs"], ["sort-strs"], ["sort-zdts"]][kind]
        f = r.choice(fns)
        cases.append(Case("%s %s = %s" % ("(" + to_eu(xs, r) + " " + f + ")", "", to_eu(w, r)) if False else
                          "(%s %s) = %s" % (to_eu(xs, r), f, to_eu(w, r)), True, kind=f))
        if f == "sort-nums":
            cases.append(Case("%s sort-nums" % to_eu(xs, r), w, kind=f))
        # stability and permutation: tag each element with its index
        tagged = "[%s]" % ", ".join("[%s, %d]" % (to_eu(x, r), i) for i, x in enumerate(xs))
        wi = sorted(range(len(xs)), key=lambda i: cmpf(xs[i]))
        by = r.choice(["sort-by(first, <)", ["sort-by-num(first)", "sort-by-str(first)", "sort-by-str(first)", "sort-by-zdt(first)"][kind]])
        cases.append(Case("%s %s map(second)" % (tagged, by), wi, kind=by))
        wd = sorted(range(len(xs)), key=lambda i: cmpf(xs[i]))
        if xs:
            mx = "max-of" if r.random() < .5 else "min-of"
            m = w[-1] if mx == "max-of" else w[0]
            cases.append(Case("(%s %s) = %s" % (to_eu(xs, r), mx, to_eu(m)), True, kind=mx))
    r.shuffle(cases)
    run_cases(ctx, cases)
    return ctx.finish(min_distinct=1500)
