"""C29: the test runner's verdict is the truth."""
import re, shutil
from ..batch import *
from ..val import *

BAD = ['panic("no")', '1 + "s"', "{a: 1}.b", "[] head", "{}.z", '"x" num', "5 / 0"]


def boolean(r, v):
    return r.choice(["true", "(1 = 1)", "not(false)", "(([1, 2] count) = 2)", '("a" < "b")', "(2 //=> 2) number?", "([true] all-true?)"] if v else
                    ["false", "(1 = 2)", "not(true)", "(([1, 2] count) = 3)", '("b" < "a")', "([true, false] all-true?)"])


def body(r):
    """A target body, its verdict, and whether it errors."""
    q = r.random()
    n = r.randint(1, 4)
    if q < .12:
        v = r.random() < .5
        return "{ RESULT: %s }" % boolean(r, v), v, False
    if q < .24:
        v = r.random() < .5
        return "{ RESULT: %s then(:PASS, :FAIL) other: %s }" % (boolean(r, v), boolean(r, r.random() < .5)), v, False
    if q < .3:
        s, v = r.choice([(":PASS", True), ('"PASS"', True), (":FAIL", False), ('"pass"', False), (":OK", False), ("null", False), ("1", False), ('"true"', False), (":PASSED", False), ("[]", False), ('""', False)])
        return "{ x: false RESULT: %s }" % s, v, False
    if q < .5:
        vs = [r.random() < .75 for _ in range(n)]
        return "{ %s }" % " ".join("k%d: %s" % (i, boolean(r, v)) for i, v in enumerate(vs)), all(vs), False
    if q < .58:
        s = r.choice(["1", '"true"', "null", ":true", "[]", "{}", "[true]", "{a: true}"])
        vs = ["true"] * n
        vs[r.randrange(n)] = s
        return "{ %s }" % " ".join("k%d: %s" % (i, v) for i, v in enumerate(vs)), False, False
    if q < .66:
        v = r.random() < .6
        return boolean(r, v), v, False
    if q < .72:
        return r.choice(["[true]", "7", '"PASS"', ":PASS", "[]"]), False, False
    if q < .86:
        b = r.choice(BAD)
        return r.choice(["%s", "{ RESULT: %s }", "{ a: true b: %s }", "{ RESULT: :PASS z: %s }", "[true, %s]", "{ a: %s RESULT: true }"]) % b, False, True
    # inline assertions
    v = r.random() < .5
    a = r.choice(["(3 //=> %d)", "(3 //= %d)", "(3 //=? (= %d))", "(3 //=?> (= %d))", "((3 = %d) //!)"]) % (3 if v else 4)
    return r.choice(["{ RESULT: :PASS x: %s }", "{ RESULT: %s if(true, :PASS, :FAIL) }" if False else "{ y: %s RESULT: true }", "{ RESULT: [%s] then(true, true) }" if False else "{ q: [%s] RESULT: :PASS }"]) % a, v, False


def test_file(r, tag):
    """Source text, expected verdicts per test (name-format), title, requires."""
    L, want = [], {}
    formats = ["yaml"]
    title = None
    head = []
    if r.random() < .35:
        formats = r.sample(["yaml", "json", "toml", "edn", "eu"], r.randint(1, 3))
        head.append("test-formats: [%s]" % ", ".join(":" + f for f in formats))
    if r.random() < .2:
        title = r.choice(["A title", "with \"quotes\"".replace('"', "'"), "ünï", "PASS"])
        head.append('title: "%s"' % title)
    if head:
        L.append("{ %s }" % " ".join(head))
    q = r.random()
    pure = [f for f in formats]
    n = r.choice([0, 1, 1, 2, 3, 5])
    if n == 0:
        # no targets: the whole unit is the test
        while True:
            b, v, bad = body(r)
            if b.startswith("{ "):
                break
        keys = b[2:-2]
        if r.random() < .5:
            L.append("` { target: :main }\nm: %s\n" % b)
            name = "main"
        else:
            # as top level declarations
            ks = re.split(r" (?=(?:k\d|RESULT|other|[abxyzq]): )", keys)
            L += ks
            name = "default"
        for f in formats:
            want["%s-%s" % (name, f)] = v
    for i in range(n):
        b, v, bad = body(r)
        # a scalar has no toml form
        name = "test" + r.choice(["-%d" % i, "-é%d" % i, "%d" % i, "-long-name_%d" % i])
        m = ["target: :%s" % name if "é" not in name else "target: :test-u%d" % i]
        name = name if "é" not in name else "test-u%d" % i
        fs = formats
        ver = None
        q = r.random()
        if q < .15:
            f = r.choice(["yaml", "json", "edn"])
            m.append("format: :%s" % f)
            fs = [f]
        if r.random() < .15 and not bad:
            pas = r.random() < .5
            m.append('verify: ["check%d"]' % i)
            L.append("check%d(ctx): %s" % (i, "if(ctx.exit = 0, :PASS, :FAIL)" if pas else r.choice([":FAIL", "ctx.missing-key" if False else "false", "if(ctx.exit = 0, :FAIL, :PASS)"])))
            ver = pas
        if r.random() < .15:
            m.append('doc: "about %d"' % i)
        L.append("` { %s }\nd%d: %s" % (" ".join(m), i, b))
        for f in fs:
            w = v if ver is None else ver
            if f == "toml" and (not b.startswith("{") or "null" in b or "k0: null" in b):
                # the rendering fails, which only a check that asks for it accepts
                w = ver is not None and "if(ctx.exit = 0, :FAIL, :PASS)" in L[-2]
            want["%s-%s" % (name, f)] = w
    if r.random() < .4:
        L.append("` { target: :other }\nother: %s" % r.choice(BAD + ["false", "{ RESULT: :FAIL }"]) if n else "")
    if r.random() < .3 and n:
        L.append("helper(x): x + 1")
    return "\n".join(L) + "\n", want, title


def main():
    c = Ctx("C29", rule="a set of test files with known verdicts, run by eu test")
    r = c.sub("suites")
    jobs = []
    for i in range(c.scale(60, 800)):
        k = r.choice([1, 1, 1, 2, 3, 5])
        files = {}
        for j in range(k):
            files[r.choice(["t%d.eu", "a-%d.eu", "x y%d.eu", "u'%d.eu", 'q"%d.eu', "b{%d}.eu", "é%d.eu", "n.m%d.eu"]) % j] = test_file(r, j)
        jobs.append((i, r.choice(["dir", "files", "cwd"]) if k > 1 or r.random() < .3 else "files", files, r.choice([[], [], ["--source-prelude"]]), r.random() < .08))

    def go(job):
        i, how, files, opts, broken = job
        d = c.dir()
        for n, (src, want, title) in files.items():
            with open(os.path.join(d, n), "w") as f:
                f.write(src)
        if broken:
            with open(os.path.join(d, "zz.eu"), "w") as f:
                f.write("` { target: :test-a }\na: { RESULT: :PASS }\nb: {\n")
        names = list(files) + (["zz.eu"] if broken else [])
        args = ["test"] + opts + (names if how == "files" else ["."] if how == "dir" else [])
        res = c.run(args, cwd=d, timeout=180)
        evidence = {}
        rd = os.path.join(d, ".result")
        if os.path.isdir(rd):
            for run in os.listdir(rd):
                for n in os.listdir(os.path.join(rd, run)):
                    if n.endswith(".report.yaml"):
                        evidence[n[:-len(".report.yaml")] + ".eu"] = open(os.path.join(rd, run, n)).read()
        shutil.rmtree(d, ignore_errors=True)
        return job, args, res, evidence

    for job, args, res, evidence in c.pmap(go, jobs):
        i, how, files, opts, broken = job
        if res.timeout:
            c.unsure("timeout")
            continue
        out = res.out.decode("utf-8", "replace")
        texts = {n: f[0] for n, f in files.items()}

        def bad(what):
            c.violate(what, res.brief() + "\n" + "\n".join("== %s\n%s" % x for x in sorted(evidence.items()))[:3000], files=texts, args=args)
        c.cov("suite by " + how)
        if crashed(res):
            bad("eu test crashed: %s" % res.errtext[:200])
            continue
        want = {n: all(f[1].values()) for n, f in files.items()}
        if broken:
            c.count(("broken", str(files)))
            if res.rc == 0:
                bad("exit status 0 although a file does not compile")
            continue
        if (res.rc == 0) != all(want.values()):
            bad("exit status %s, expected %s: %s" % (res.rc, 0 if all(want.values()) else "non-zero", " ".join((out + res.errtext).split())[:300]))
            continue
        for n, (src, w, title) in files.items():
            c.count((n, src, how, tuple(opts)))
            t = title or n[:-3]
            m = re.search(r"(?m)^%s\.\.\.(\w+)$" % re.escape(t), out)
            verdicts = re.findall(r"(?m)^%s\.\.\.(\w+)$" % re.escape(t), out)
            if ("PASS" if want[n] else "FAIL") not in verdicts:
                bad("%s reported %s, expected %s" % (n, verdicts, "PASS" if want[n] else "FAIL"))
                continue
            if n in evidence:
                for k, v in w.items():
                    m = re.search(r"(?ms)^  [\"']?%s[\"']?:\n(.*?)(?=^  \S|^\S|\Z)" % re.escape(k), evidence[n])
                    c.cov("test verdicts")
                    if not m:
                        bad("%s: no evidence of test %s" % (n, k))
                        break
                    got = re.findall(r"(?m)^        result: (.*)$", m.group(1).split("validation:")[-1])
                    if (bool(got) and all(g.strip('"') == "PASS" for g in got)) != v:
                        bad("%s: test %s judged %s, expected %s" % (n, k, got, "PASS" if v else "not PASS"))
                        break
            else:
                bad("%s: no report of it (%s)" % (n, sorted(evidence)))
        if how != "files":
            for n in files:
                c.sample("%s: %s" % (n, want[n]))

    # a test that needs io is skipped where io is not allowed
    src = '` { target: :test-io requires-io: true }\nio-test: { :io x: io.shell("echo hi") }.({ RESULT: :PASS })\n'
    res = c.eu_src(src, ["test"], timeout=60)
    c.count("requires-io")
    if res.rc != 0 or b"SKIP" not in res.out:
        c.violate("a target that requires io is not skipped without --allow-io: %s" % res.out.decode()[:100], res.brief(), files={"main.eu": src}, args=["test", "main.eu"], signature="requires-io")
    for what, fs in (("an empty directory", {}),):
        d = c.dir()
        res = c.run(["test", "."], cwd=d, timeout=60)
        c.count(what)
        if crashed(res):
            c.violate("eu test crashed on " + what, res.brief(), args=["test", "."])
    return c.finish(min_distinct=80)
