"""C28: a stream import yields every record once, in order, on demand."""
import csv, io, shutil, subprocess
from ..batch import *
from ..val import *
from .. import docs

FAR = " !!x"


def txt(r):
    return docs.text(r) if r.random() < .6 else r.choice(["", "a", "a,b", 'q"q', "x y", " lead", "trail ", "1", "1.5", "true", "null", "é", "🎉", "tab\tx", "{x}", "{{", "#", "'", "a" * 5000])


def records(r, fmt, n):
    """Records and the bytes that spell them."""
    eol = r.choice(["\n", "\n", "\r\n"])
    last = r.random() < .75
    if fmt == "jsonl":
        kind = r.choice(["rows", "rows", "mixed", "nums"])
        if kind == "rows":
            ks = [docs.key(r, .1) for _ in range(r.randint(1, 5))]
            ks = list(dict.fromkeys(ks))
            recs = [{k: docs.value(r, 1, big=False) for k in r.sample(ks, r.randint(1, len(ks)))} for _ in range(n)]
        elif kind == "mixed":
            recs = [docs.value(r, 3, big=False) for _ in range(n)]
        else:
            recs = [r.choice([r.randint(-99, 99), r.randint(-2**63, 2**63 - 1), r.randint(0, 2**64 - 1)]) for _ in range(n)]
        L = []
        for v in recs:
            L.append(r.choice(["", "", "", " ", "\t"]) + docs.json_text(r, v, ws=r.choice([("", ""), (" ", ""), ("\t", " ")])) + r.choice(["", "", "", " "]))
            while r.random() < .08:
                L.append(r.choice(["", " ", "\t"]))
        s = eol.join(L)
    elif fmt == "csv":
        ks = list(dict.fromkeys(r.choice(["name", "age", "a b", "zeta", "Alpha", "b1", "x.y", "é", "k%d" % i, "q\"x", "c,d"]) for i in range(r.randint(1, 6))))
        recs = [{k: txt(r).replace("\r", "") for k in ks} for _ in range(n)]
        if len(ks) == 1:
            recs = [{k: v or "v" for k, v in rec.items()} for rec in recs]
        o = io.StringIO()
        w = csv.writer(o, lineterminator=eol, quoting=r.choice([csv.QUOTE_MINIMAL, csv.QUOTE_ALL]))
        w.writerow(ks)
        for rec in recs:
            w.writerow(list(rec.values()))
            if r.random() < .05:
                o.write(eol)
        s = o.getvalue()
        if s.endswith(eol):
            s = s[:-len(eol)]
        last = last or not recs or not list(recs[-1].values())[-1]
    else:
        recs = [txt(r).replace("\n", " ").replace("\r", "") for _ in range(n)]
        for i in range(len(recs)):
            if r.random() < .05:
                recs[i] += r.choice(["\u2028", "\x85", "\x0b", "\x0c", " ", "\t"])
        s = eol.join(recs)
        if recs and not recs[-1]:
            last = True
        if eol == "\r\n" and r.random() < .2 and recs:
            s, recs = s.replace("\r\n", "\r\r\n"), [x + "\r" for x in recs[:-1]] + recs[-1:]
    if last and (recs or fmt == "csv"):
        s += eol
    return recs, s.encode("utf-8", "surrogatepass")


def uses(r, recs, n, fmt):
    """Expressions over d and what they yield; fits(j) tells how many records each needs."""
    k = r.randint(0, n + 2)
    kd = min(k, n)
    j = r.randint(0, max(0, n - 1))
    U = [("d", recs, n + 1), ("d count", n, n + 1), ("d take(%d)" % k, recs[:k], k), ("d drop(%d)" % kd, recs[kd:], n + 1),
         ("(d take(%d)) ++ d" % k, recs[:k] + recs, n + 1), ("d ++ d", recs + recs, n + 1), ("d reverse", recs[::-1], n + 1),
         ("{ a: d take(%d) b: d count c: d }" % k, {"a": recs[:k], "b": n, "c": recs}, n + 1),
         ("{ b: d count a: d take(%d) }" % k, {"b": n, "a": recs[:k]}, n + 1),
         ("[d, d take(2)] map(count)", [n, min(2, n)], n + 1),
         ("zip(d, d)", [[x, x] for x in recs], n + 1), ("d map(identity)", recs, n + 1),
         ("d nil?", not n, 1), ("d window(2, 2)" if False else "d take(%d) map(identity) count" % k, min(k, n), k),
         ("zip(d, d drop(%d))" % kd, [list(x) for x in zip(recs, recs[kd:])], n + 1),
         ("d drop(%d) take(2)" % j, recs[j:j + 2], j + 2), ("d drop(%d) count" % kd, n - kd, n + 1),
         ("split-at(%d, d)" % k, [recs[:k], recs[k:]], n + 1),
         ("zip([%s], d)" % ", ".join("%d" % i for i in range(k)), [[i, x] for i, x in zip(range(k), recs)], k)]
    if n:
        U += [("d head", recs[0], 1), ("d tail", recs[1:], n + 1), ("d last", recs[-1], n + 1), ("d second" if n > 1 else "d first", recs[1] if n > 1 else recs[0], 2 if n > 1 else 1),
              ("d nth(%d)" % j, recs[j], j + 1), ("d !! %d" % j, recs[j], j + 1), ("{ y: d nth(%d) x: d head }" % j, {"y": recs[j], "x": recs[0]}, j + 1)]
    if fmt == "csv" and n:
        k0 = list(recs[0])[-1]
        U += [("d map(lookup(%s))" % sym(k0), [x[k0] for x in recs], n + 1), ("d map(elements) map(map(first)) head map(str.of)", list(recs[0]), 1),
              ("d head keys map(str.of)", list(recs[0]), 1)]
    if fmt == "text":
        U += [("d map(str.letters) map(count)", [len(x) for x in recs], n + 1), ("d filter(= \"\") count", sum(not x for x in recs), n + 1),
              ("d str.join-on(\"|\")", "|".join(recs), n + 1)]
    if fmt == "jsonl" and all(isinstance(x, int) and not isinstance(x, bool) for x in recs):
        if all(abs(x) < 100 for x in recs):
            U += [("d foldl((+), 0)", sum(recs), n + 1)]
        U += [("d filter(> 0)", [x for x in recs if x > 0], n + 1)]
    return r.choice(U)


def close(a, b):
    """Equal, floats to within a few units in the last place (a known finding of its own)."""
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-15 * max(abs(a), abs(b)) or max(abs(a), abs(b)) < 1e-300
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(close(a[k], b[k]) for k in a)
    return same(a, b, False)


def diff(a, b, at=""):
    """Where two values part."""
    if isinstance(a, list) and isinstance(b, list):
        for i, (x, y) in enumerate(zip(a, b)):
            if not close(x, y):
                return diff(x, y, at + "[%d]" % i)
        return "%d entries for %d at %s" % (len(a), len(b), at)
    if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b):
        for k in a:
            if not close(a[k], b[k]):
                return diff(a[k], b[k], at + "." + k)
    return "%.200r for %.200r at %s" % (a, b, at)


SPOIL = {"jsonl": [b"{\"a\":", b"[1, 2", b"{a: 1}", b"nul", b"\"x", b"\"\xff\"", b"{} {}", b"01", b"'x'"], "csv": [b"\xff\xfe,b,c,d,e,f,g,h", b"1,2,3,4,5,6,7,8,9,10"], "text": [b"\xff\xfe", b"a\x80b"]}


def main():
    c = Ctx("C28", rule="records in a file x how they are consumed")
    r = c.sub("streams")
    jobs = []
    for i in range(c.scale(280, 6000)):
        fmt = r.choice(["jsonl", "jsonl", "csv", "text"])
        n = r.choice([0, 1, 1, 2, 3, 5, 9, 20, 60, 300]) if i % 60 else r.choice([3000, 9000])
        recs, raw = records(r, fmt, n)
        e, want, needs = uses(r, recs, n, fmt)
        spoil = None
        if r.random() < .22 and n < 100:
            raw += (b"" if raw.endswith(b"\n") or not raw else b"\n") + r.choice(SPOIL[fmt]) + b"\n" + r.choice([b"", b"5\n", b"\n\n"])
            spoil = needs > n
        how = r.choice(["input", "input", "header", "declaration", "twice"] + (["stdin"] if fmt == "text" else []))
        jobs.append((i, fmt, recs, raw, e, want, spoil, how, needs))

    def go(job):
        i, fmt, recs, raw, e, want, spoil, how, needs = job
        d = c.dir()
        f = r"in %d.dat" % i if i % 7 == 0 else "in.dat"
        with open(os.path.join(d, f), "wb") as h:
            h.write(raw)
        name, cargs, env = CONFIGS[i % len(CONFIGS)]
        out = "json" if not isinstance(want, (dict, list)) and i % 2 else "yaml" if False else "json"
        args, stdin = list(cargs) + ["-x", out], b""
        loc = "d=%s-stream@%s" % (fmt, f)
        src = None
        if how == "input":
            args += ["-e", "{ r: %s }" % e, loc]
        elif how == "stdin":
            args += ["-e", "{ r: %s }" % e, "d=text-stream@-"]
            stdin = raw
        else:
            if how == "header":
                src = '{ import: "%s" }\nr: %s\n' % (loc, e)
            elif how == "declaration":
                src = '` { import: "%s" }\nr: %s\n' % (loc, e)
            else:
                src = '{ import: ["%s", "o=%s-stream@%s"] }\n` :suppress\nz: o take(1)\nr: if((o count) >= 0, %s, null)\n' % (loc, fmt, f, e)
            with open(os.path.join(d, "main.eu"), "w") as h:
                h.write(src)
            args += ["main.eu"]
        res = c.run(args, cwd=d, env=env, stdin=stdin, timeout=120)
        shutil.rmtree(d, ignore_errors=True)
        return job, args, env, src, f, res

    for job, args, env, src, f, res in c.pmap(go, jobs):
        i, fmt, recs, raw, e, want, spoil, how, needs = job
        files = {f: raw.decode("utf-8", "replace")}
        if src:
            files["main.eu"] = src
        if res.timeout:
            c.unsure("timeout")
            continue

        def bad(what):
            c.violate("%s-stream, %s: %s" % (fmt, e[:80], what), res.brief() + "\nwant %r" % (want,), files=files, args=args, env=env)
        if crashed(res):
            bad("crashed: " + res.errtext[:200])
            continue
        c.count((fmt, raw, e, how))
        c.cov("%s, %s" % (fmt, how))
        c.cov("records", len(recs))
        if spoil is not None:
            must = spoil or how == "twice"
            c.cov("malformed record reached" if must else "malformed record not reached")
            if must:
                if res.rc == 0:
                    bad("a malformed record is reached and not reported: %s" % res.out[:200])
                elif not any(x in res.errtext for x in ("malformed JSON", "CSV", "UTF-8", "stream")):
                    bad("the report does not speak of the record: %s" % res.errtext[:200])
                continue
        if res.rc != 0:
            bad("exit status %s: %s" % (res.rc, res.errtext[:300]))
            continue
        got = jload(res.out)
        if not close(got.get("r"), want):
            bad("gave %s" % diff(got.get("r"), want))
    # order of keys and columns, as pairs, and agreement with the document read whole
    r = c.sub("order")
    jobs = []
    for i in range(c.scale(120, 1500)):
        fmt = r.choice(["jsonl", "csv", "text"])
        while True:
            recs, raw = records(r, fmt, r.choice([1, 2, 4, 12]))
            if b"\r\r" not in raw:
                break
        if fmt != "text":
            recs = [x for x in recs if isinstance(x, dict)]
        jobs.append((i, fmt, recs, raw))

    def go2(job):
        i, fmt, recs, raw = job
        d = c.dir()
        with open(os.path.join(d, "in.dat"), "wb") as h:
            h.write(raw)
        name, cargs, env = CONFIGS[i % len(CONFIGS)]
        e = "{ r: d map(map(first) ∘ elements) map(map(str.of)) }" if fmt == "csv" else "{ r: d filter(block?) map(map(first) ∘ elements) map(map(str.of)) }" if fmt == "jsonl" else "{ r: d }"
        a = c.run(cargs + ["-x", "json", "-e", e, "d=%s-stream@in.dat" % fmt], cwd=d, env=env, timeout=60)
        b = c.run(cargs + ["-x", "json", "-e", e, "d=%s@in.dat" % fmt], cwd=d, env=env, timeout=60)
        shutil.rmtree(d, ignore_errors=True)
        return job, e, a, b

    for job, e, a, b in c.pmap(go2, jobs):
        i, fmt, recs, raw = job
        want = [list(x) for x in recs] if fmt != "text" else recs
        if a.timeout or b.timeout:
            c.unsure("timeout")
            continue
        c.count((fmt, raw, "order"))
        c.cov("%s, keys in order" % fmt)
        for what, res in (("streamed", a), ("read whole", b)):
            if res.rc != 0 or jload(res.out).get("r") != want:
                c.violate("%s %s: keys are not those of the source in its order" % (fmt, what), res.brief() + "\nwant %r" % (want,), files={"in.dat": raw.decode("utf-8", "replace")}, args=["-x", "json", "-e", e])
                break
    # a prefix needs no more input than it says
    r = c.sub("live")
    for i in range(c.scale(12, 60)):
        n = r.randint(1, 6)
        recs = ["line %d %s" % (k, "x" * r.randint(0, 300)) for k in range(n)]
        k = r.randint(1, n)
        e, want = r.choice([("d take(%d)" % k, recs[:k]), ("d head", recs[0]), ("d nth(%d)" % (k - 1), recs[k - 1])])
        p = subprocess.Popen([EU] + CONFIGS[i % 4][1] + ["-x", "json", "-e", "{ r: %s }" % e, "d=text-stream@-"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=c.env(CONFIGS[i % 4][2]), cwd=c.scratch)
        try:
            p.stdin.write("".join(x + "\n" for x in recs).encode())
            p.stdin.flush()
            stdin, p.stdin = p.stdin, None
            try:
                o, er = p.communicate(timeout=60)
            except subprocess.TimeoutExpired:
                c.violate("text-stream: %s waits for the end of its input" % e, "stdin stays open after %d lines" % n, args=["-e", e])
                continue
            finally:
                stdin.close()
            c.count(("live", e, n))
            c.cov("open input")
            if p.returncode != 0 or jload(o)["r"] != want:
                c.violate("text-stream from an open input: %s" % e, o.decode() + er.decode(), args=["-e", e])
        finally:
            p.kill()
            p.wait()
    # known finding: floats
    d = c.dir()
    with open(os.path.join(d, "f.jsonl"), "w") as h:
        h.write("%s\n" % FLOAT)
    res = c.run(["-x", "json", "-e", "{ r: d }", "d=jsonl-stream@f.jsonl"], cwd=d)
    c.count("float")
    if res.rc or jload(res.out)["r"] != [float(FLOAT)]:
        c.violate("jsonl-stream reads %s as %s" % (FLOAT, res.out.decode()), res.brief(), args=["-e", "{ r: d }"], signature="jsonl-stream float")
    return c.finish(min_distinct=300)


FLOAT = "837577975662572.88"
