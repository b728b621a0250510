"""C20: importing a document yields exactly its data."""
from ..core import *
from ..batch import Case, run_cases
from .. import docs as D
from ..val import cstr, Sym


def meets(got, want, order=True):
    """got: JSON of show(v); want: the value itself."""
    if isinstance(want, D.Pat):
        return want.ok(got)
    if isinstance(want, dict):
        if not (isinstance(got, list) and got and got[0] == "#b" and len(got) == len(want) + 1):
            return False
        if order:
            return all(g[0] == str.__str__(k) and meets(g[1], v, order) for g, (k, v) in zip(got[1:], want.items()))
        m = {g[0]: g[1] for g in got[1:]}
        return len(m) == len(want) and all(str.__str__(k) in m and meets(m[str.__str__(k)], v, order) for k, v in want.items())
    if isinstance(want, (list, tuple)):
        if not (isinstance(got, list) and got and got[0] == "#l" and len(got) == len(want) + 1):
            return False
        if isinstance(want, D.Bag):
            return sorted(got[1:]) == sorted(want)
        return all(meets(g, v, order) for g, v in zip(got[1:], want))
    if isinstance(want, Sym):
        return got == ["#s", want.name()]
    if isinstance(want, D.Stamp):
        return got == ["#t", str(want)]
    if isinstance(want, bool) or want is None or isinstance(got, bool) or got is None:
        return got is want
    if isinstance(want, (int, float)):
        if not isinstance(got, (int, float)):
            return False
        if isinstance(want, int) and isinstance(got, float) and want != 0:
            return False
        return got == want
    return isinstance(got, str) and got == str(want)


def main():
    c = Ctx("C20", rule="distinct documents (format, text, way of reading) whose imported data was compared, key by key and in order, with the data the document was built from, or whose refusal was observed")
    r = c.sub("docs")
    n = 700 if c.quick else 2500
    items = []
    for fmt, gen in D.GEN.items():
        for i in range(n * (2 if fmt in ("yaml", "json") else 1)):
            t, v, w = gen(r)
            if "\x00" in t:
                continue
            how = r.choice(["import", "import", "input", "parse"]) if fmt != "text" else r.choice(["import", "input"])
            items.append((fmt, t, w if how == "parse" else v, how))
    r.shuffle(items)
    for x in items[:8]:
        c.sample("%s %s: %s" % (x[3], x[0], x[1][:300]))

    def name(i, fmt, rr):
        if not D.EXT[fmt]:
            return "d%d.%s" % (i, fmt), fmt + "@"
        e = rr.choice(D.EXT[fmt])
        return ("d%d.%s" % (i, e), "") if rr.random() < .75 else ("d%d.dat" % i, fmt + "@")

    def go(job):
        how, group = job
        rr = random.Random(repr(group))
        if len(c.violations) >= 25 or not c.left(80, 800):
            return
        files, lines, specs = {}, [], []
        cli = how == "input"
        for i, (fmt, t, v, _) in enumerate(group):
            if how == "parse":
                lines.append("c%d: show(%s parse-as(:%s))" % (i, cstr(t), fmt))
                continue
            f, pre = name(i, fmt, rr)
            files[f] = t
            specs.append("%sd%d=%s" % ("", i, pre + f) if not pre else "d%d=%s%s" % (i, pre, f))
            lines.append("c%d: show(d%d)" % (i, i))
        body = D.SHOW + "\n".join(lines) + "\n"
        if how == "import":
            k = rr.randrange(2)
            if k == 0 or len(specs) == 1:
                body = "{ import: [%s] }\n" % ", ".join('"%s"' % s for s in specs) + body
            else:
                body = D.SHOW + "\n".join('` { import: "%s" }\nc%d: show(d%d)' % (s, i, i) for i, s in enumerate(specs)) + "\n"
        cfg = CONFIGS[rr.randrange(len(CONFIGS))]
        args = ["-j", "--suppress-type-warnings"] + list(cfg[1]) + (specs if cli else [])
        p = c.eu_src(body, args, files=files, env=cfg[2], timeout=60)
        got = None
        if p.rc == 0 and not p.timeout:
            try:
                got = json.loads(p.out)
            except Exception:
                got = None
        if got is None and len(group) > 1:
            m = len(group) // 2
            go((how, group[:m]))
            go((how, group[m:]))
            return
        fs = dict(files)
        fs["main.eu"] = body
        for i, (fmt, t, v, _) in enumerate(group):
            c.count("%s %s %s" % (how, fmt, t))
            c.cov("%s via %s" % (fmt, how))
            if got is None:
                why = "timed out" if p.timeout else "was refused (rc %s): %s" % (p.rc, " ".join(p.errtext.split())[:200])
                c.violate("%s via %s: %r %s" % (fmt, how, t[:200], why), p.brief(), fs, args=args, env=cfg[2])
            elif not meets(got.get("c%d" % i, "absent"), v, fmt != "edn"):
                c.violate("%s via %s: %r gave %s, expected %s" % (fmt, how, t[:200], json.dumps(got.get("c%d" % i), ensure_ascii=False)[:200], json.dumps(D.show(v), ensure_ascii=False, default=repr)[:200]),
                          p.brief(), fs, args=args, env=cfg[2])

    jobs = []
    for how in ("import", "input", "parse"):
        g = [x for x in items if x[3] == how]
        jobs += [(how, g[i:i + 20]) for i in range(0, len(g), 20)]
    r.shuffle(jobs)
    c.pmap(go, jobs)

    # whatever violates its format is refused, however it is read
    def bad(job):
        fmt, t, how = job
        if how == "parse":
            p = c.eu_src("r: show(%s parse-as(:%s))\n" % (cstr(t), fmt) + D.SHOW, ["--suppress-type-warnings", "-j", "-e", "r"], timeout=20)
        elif how == "input":
            p = c.eu_src(D.SHOW + "r: show(d)\n", ["--suppress-type-warnings", "-j", "-e", "r", "d=%s@bad.dat" % fmt], {"bad.dat": t}, timeout=20)
        else:
            p = c.eu_src('{ import: "d=%s@bad.dat" }\n' % fmt + D.SHOW + "r: show(d)\n", ["--suppress-type-warnings", "-j", "-e", "r"], {"bad.dat": t}, timeout=20)
        c.count("bad %s %s %s" % (fmt, how, t))
        c.cov("malformed %s" % fmt)
        if p.timeout or p.rc == 0 or crashed(p) or not p.err.strip() or p.out.strip():
            c.violate("malformed %s via %s: %r is not refused" % (fmt, how, t), p.brief(), {"bad.dat": t})
    jobs = []
    hows = ["parse", "input", "import"]
    i = 0
    for fmt, ts in D.BAD.items():
        for t in ts:
            # data read as inert text holds no expressions to be wrong
            hs = [h for h in hows if not (h == "parse" and "!eu" in t)]
            if c.quick:
                hs = [hs[(i := i + 1) % len(hs)]]
            jobs += [(fmt, t, h) for h in hs]
    c.pmap(bad, jobs)

    # recorded findings
    def known(sig, fmt, t, want):
        p = c.eu_src('{ import: "d=%s@k.dat" }\n' % fmt + D.SHOW + "r: show(d)\n", ["--suppress-type-warnings", "-j", "-e", "r"], {"k.dat": t}, timeout=20)
        c.count("known " + t)
        if p.rc == 0 and not meets(json.loads(p.out), want):
            c.violate("%s: %r gave %s" % (sig, t, p.text[:200]), p.brief(), {"k.dat": t}, signature=sig)
    known("csv columns of one name", "csv", "a,a,b\n1,2,3\n", [{"a": "1", "a ": "2", "b": "3"}])
    known("xml attributes that differ in prefix", "xml", '<a n:x="1" m:x="2"/>', [Sym("a"), {"n:x": "1", "m:x": "2"}])
    known("yaml documents after the first", "yaml", "---\na: 1\n---\nb: 2\n", [{"a": 1}, {"b": 2}])
    return c.finish(1000)


if __name__ == "__main__":
    sys.exit(main())
