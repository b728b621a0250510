"""C30: output that cannot be written is reported; what was written is a prefix."""
import errno, resource, signal, threading
from ..batch import *
from ..val import *

FMTS = ["json", "yaml", "toml", "text", "edn", "eu", "html"]


def program(r, f):
    big = r.random() < .35
    n = r.randint(200, 3000) if big else r.randint(0, 8)
    if f == "html":
        def el(d):
            return '[:%s, {%s}, %s]' % (r.choice(["p", "div", "ul", "b"]), r.choice(["", 'id: "x"', 'class: "a b"']),
                                         ", ".join(el(d - 1) if d and r.random() < .5 else strlit(gen_str(r, True) or "x") for _ in range(r.randint(1, 3))))
        return "main: %s" % el(4)
    q = r.random()
    if f == "text" and q < .7:
        return r.choice(["main: range(0, %d) map(str.of)" % n, "main: %s" % strlit(gen_str(r, True) or "x"), "main: range(0, %d) map(str.of) str.join-on(\", \")" % n, "main: %d" % r.randint(0, 99)])
    if f == "text":
        return "main: range(0, %d)" % n
    v = to_eu({k: gen(r, 2) for k in ["a", "b b", "c"][:r.randint(1, 3)]}, r)
    if f == "toml":
        return "main: {z: %d big: range(0, %d) map(str.of)}" % (r.randint(0, 9), n)
    if q < .35:
        return "main: %s" % v
    if q < .7:
        return "row(i): {id: i name: \"row {i}\" tags: [:x, i, true, null]}\nmain: range(0, %d) map(row)" % n
    return "main: {v: %s l: range(0, %d)}" % (v, n)


def main():
    c = Ctx("C30", rule="a document in a format, with a fault at a point of its writing")
    so = os.path.join(c.scratch, "faultio.so")
    cc = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(VERIF, "euv", "native", "faultio.c"), "-ldl"], capture_output=True, text=True)
    if cc.returncode:
        print("cannot build the fault shim: " + cc.stderr[:500])
        return 2
    r = c.sub("docs")
    jobs = [(i, FMTS[i % len(FMTS)], r.choice(["stdout", "stdout", "file"]), r.randrange(1 << 30)) for i in range(c.scale(28, 250))]
    jobs += [(10000 + i, "fmt", r.choice(["stdout", "stdin"]), r.randrange(1 << 30)) for i in range(c.scale(4, 30))]
    lock = threading.Lock()
    totals = {"write calls": 0, "bytes": 0, "faults": 0}

    def go(job):
        i, f, dest, seed = job
        r = random.Random("%s/%s" % (seed, c.seed))
        d = c.dir()
        src = program(r, r.choice(["json", "text", "yaml"]) if f == "fmt" else f)
        open(os.path.join(d, "m.eu"), "w").write(src + "\n")
        outp = os.path.join(d, "out.txt")
        cfg = CONFIGS[i % len(CONFIGS)]
        if f == "fmt":
            base, cfg = ["fmt"] + r.choice([[], ["--reformat"]]) + (["m.eu"] if dest == "stdout" else []), ("fmt", [], {})
        else:
            base = ["-x", f, "-t", "main", "--suppress-type-warnings"] + list(cfg[1]) + (["-o", "out.txt"] if dest == "file" else []) + ["m.eu"]
        stdin = src if f == "fmt" and dest == "stdin" else b""
        open(os.path.join(d, "m.eu"), "w").write(("` :main\n" if f != "fmt" else "") + src.replace("main:", "main:") + "\n" if "row(i)" not in src else src.replace("main:", ("` :main\n" if f != "fmt" else "") + "main:") + "\n")

        def run(env=None, **kw):
            if os.path.exists(outp):
                os.unlink(outp)
            e = dict(cfg[2])
            e.update(env or {})
            res = c.run(base, cwd=d, env=e, timeout=60, stdin=stdin, **kw)
            got = (open(outp, "rb").read() if os.path.exists(outp) else b"") if dest == "file" else res.out
            return res, got

        ref, B = run()
        if ref.timeout or ref.rc != 0:
            if "EU-RENDER" in ref.errtext:
                c.cov("document refused by its format")
            elif not ref.timeout:
                c.violate("reference run fails: %s" % ref.errtext[:200], ref.brief(), files={"m.eu": src}, args=base, env=cfg[2])
            return
        n = len(B)

        def bad(what, res, got, env):
            c.violate("%s output of %d bytes to %s, %s" % (f, n, dest, what), "wrote %d bytes: %r\n%s" % (len(got), got[-80:], res.brief()), files={"m.eu": src}, args=base, env=dict(cfg[2], **env))

        def judge(name, res, got, env, p, kind):
            """kind: fail (must be reported), pipe (must be quiet), whole (nothing went wrong)."""
            if res.timeout:
                c.unsure("timeout")
                return
            c.count((f, dest, src, name))
            c.cov("%s %s" % (dest, kind))
            if kind == "whole":
                if res.rc != 0 or got != B:
                    bad("%s: rc %s, %s" % (name, res.rc, "all written" if got == B else "not what is written without it"), res, got, env)
                return
            if not B.startswith(got):
                bad("%s: what was written is not a prefix" % name, res, got, env)
            elif kind == "fail" and (res.rc == 0 or crashed(res)):
                bad("%s: %s" % (name, "exit status 0" if res.rc == 0 else "crashed"), res, got, env)
            elif kind == "fail" and not res.errtext.strip():
                bad("%s: no diagnostic" % name, res, got, env)
            elif kind == "pipe" and (res.errtext.strip() or crashed(res) or res.rc not in (0, -13, 141)):
                bad("%s: not quiet, rc %s %s" % (name, res.rc, res.errtext[:120]), res, got, env)

        def shim(p=None, **kw):
            log = os.path.join(d, "log")
            if os.path.exists(log):
                os.unlink(log)
            env = {"LD_PRELOAD": so, "FAULT_LOG": log, **{"FAULT_" + k: str(v) for k, v in kw.items()}}
            if p is not None:
                env["FAULT_AT"] = str(p)
            if dest == "file":
                env["FAULT_PATH"] = outp
            res, got = run(env)
            faults = None
            if os.path.exists(log):
                for l in open(log):
                    a, b, x = map(int, l.split())
                    with lock:
                        totals["write calls"] += a
                        totals["bytes"] += b
                        totals["faults"] += x
                    faults = x
            return res, got, env, faults

        pts = sorted({0, 1, n // 2, max(0, n - 1)} | {r.randint(0, max(0, n - 1)) for _ in range(3 if c.quick else 12)})
        pts = [p for p in pts if p < n]
        for p in pts:
            e = r.choice([errno.ENOSPC, errno.EIO, errno.EFBIG, errno.EDQUOT,])
            once = r.random() < .4
            res, got, env, fa = shim(p, ERRNO=e, **({"ONCE": 1} if once else {}))
            if fa:
                judge("%s after %d bytes%s" % (errno.errorcode[e], p, " once" if once else ""), res, got, env, p, "fail")
            else:
                judge("no fault reached", res, got, env, p, "whole")
        if n:
            p = r.choice(pts)
            res, got, env, fa = shim(p, ERRNO=errno.EPIPE)
            if fa:
                judge("EPIPE after %d bytes" % p, res, got, env, p, "pipe")
        res, got, env, fa = shim(n, ERRNO=errno.ENOSPC)
        judge("room for exactly the output", res, got, env, n, "whole")
        k = r.choice([1, 7, 100]) if n < 5000 else r.choice([100, 4000])
        res, got, env, fa = shim(None, SHORT=k)
        judge("short writes of %d" % k, res, got, env, n, "whole")
        res, got, env, fa = shim(None, SHORT=max(k, n // 20), EINTR=2)
        judge("interrupted writes", res, got, env, n, "whole")
        # real destinations
        if dest != "file":
            with open("/dev/full", "wb") as full:
                res, got = run(stdout=full)
            if n:
                judge("/dev/full", res, b"", {}, 0, "fail")
            # a reader that goes away
            p = r.choice([0, 1, n // 2, n])
            rd, wr = os.pipe()
            got = []

            def reader():
                left = p
                while left > 0:
                    b = os.read(rd, min(left, 65536))
                    if not b:
                        break
                    got.append(b)
                    left -= len(b)
                os.close(rd)
            t = threading.Thread(target=reader)
            t.start()
            res, _ = run(stdout=wr)
            os.close(wr)
            t.join()
            judge("reader gone after %d bytes" % p, res, b"".join(got), {}, p, "pipe")
        elif n:
            p = r.choice(pts)

            def limit():
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (p, p))
            res, got = run(preexec=limit)
            judge("file size limit %d" % p, res, got, {}, p, "fail")

    c.pmap(go, jobs)
    for k, v in totals.items():
        c.cov("observed " + k, v)
    return c.finish(min_distinct=200)
