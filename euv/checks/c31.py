"""C31: arguments after -- reach io.args, and parse-args reads every spelling of options."""
from ..batch import *
from ..val import *

WORD = ["verbose", "output", "num", "name", "dry-run", "level", "x1", "long_name", "colour", "n", "input-file", "rate", "k2", "quiet", "mode", "null-sep"]
LETTERS = "vonabcxyzVXq"
TEXT = ["", "x", "a b", "a=b", "=", "a=b=c", "é日", "--", "-", "-v", "--name", "$HOME", "a,b", "*", "\"q\"", "it's", "{x}", "{{", "\\n", "line\nbreak", "tab\there", "100", "-5", "null", "true", "[1]", "🎉", "file.txt",
        "/a/b c", "%d", "#c", ":sym", "`", "a" * 300, "~", "a\\", " ", " lead", "@f", "y=json@x", "--help", "-h", "-L", "--version", "-Q", "test", "fmt"]


def table(r):
    keys = r.sample(WORD, r.randint(1, 6))
    letters = r.sample(LETTERS, len(keys))
    t = {}
    for k, l in zip(keys, letters):
        kind = r.choice(["str", "num", "flag", "flag", "str", "null"])
        t[k] = dict(kind=kind, short=l if r.random() < .75 else None, doc=r.random() < .5,
                    default={"str": r.choice(["", "dft", "a b", "é"]), "num": r.choice([0, 3, -7, 2.5]), "flag": False, "null": None}[kind])
        if kind == "flag" and r.random() < .1:
            t[k]["default"] = True
    return t


def table_eu(t, r):
    L = []
    for k, o in t.items():
        m = []
        if o["short"]:
            m.append("short: :" + o["short"])
        if o["kind"] == "flag":
            m.append("flag: true")
        if o["doc"]:
            m.append('doc: "about %s"' % k)
        r.shuffle(m)
        L.append(("  ` { %s }\n" % " ".join(m) if m else "") + "  %s: %s" % (k, to_eu(o["default"], r)))
    return "{\n%s\n}" % "\n".join(L)


def argv(r, t):
    """A command line, and what it means: (args, values, positionals) or an error."""
    vals, pos, av = {k: o["default"] for k, o in t.items()}, [], []

    def value(o, attached=False):
        if o["kind"] == "num":
            s = r.choice(["0", "7", "42", "-3", "2.5", "1e3", "123456789012", "-0.125"])
            return s, json.loads(s)
        s = r.choice(TEXT)
        return s, s

    for _ in range(r.randint(0, 7)):
        q = r.random()
        if q < .3:
            s = r.choice(TEXT)
            if s.startswith("-") and s != "-":
                continue
            av.append(s)
            pos.append(s)
            continue
        k = r.choice(list(t))
        o = t[k]
        if q < .65 or not o["short"]:
            if o["kind"] == "flag":
                av.append("--" + k)
                vals[k] = True
            else:
                s, v = value(o)
                if r.random() < .5:
                    av.append("--%s=%s" % (k, s))
                else:
                    if s.startswith("-") and o["kind"] != "num":
                        continue
                    av += ["--" + k, s]
                vals[k] = v
            continue
        # a cluster of letters: flags, the last of which may take a value
        fl = [f for f in t if t[f]["kind"] == "flag" and t[f]["short"]]
        head = [r.choice(fl) for _ in range(r.randint(0, 3))] if fl else []
        for f in head:
            vals[f] = True
        a = "-" + "".join(t[f]["short"] for f in head)
        if o["kind"] == "flag":
            av.append(a + o["short"])
            vals[k] = True
        else:
            s, v = value(o)
            if r.random() < .5 and s != "" and not s.startswith("="):
                av.append(a + o["short"] + s)
            else:
                if s.startswith("-") and o["kind"] != "num":
                    # the flags of the cluster are still to be given
                    if head:
                        av.append(a)
                    continue
                av += [a + o["short"], s]
            vals[k] = v
    q = r.random()
    if q < .1:
        u = r.choice(["--bogus", "--bogus=3", "--Verbose", "--no"])
        av.insert(len(av), u)
        return av, Err("unknown option: " + u.split("=")[0])
    if q < .18:
        used = {o["short"] for o in t.values()}
        u = r.choice([l for l in "jkwZ9" if l not in used])
        fl = [f for f in t if t[f]["kind"] == "flag" and t[f]["short"]]
        av.append("-" + (t[fl[0]]["short"] if fl and r.random() < .5 else "") + u + r.choice(["", "v"]))
        return av, Err("unknown option: -" + u)
    if q < .28:
        ks = [k for k in t if t[k]["kind"] != "flag"]
        if ks:
            k = r.choice(ks)
            av.append("-" + t[k]["short"] if t[k]["short"] and r.random() < .5 else "--" + k)
            return av, Err("option --%s requires a value" % k)
    if q < .31:
        av.append("--help")
        return av, Err(*["--" + k for k in list(t)[:1]])
    return av, {**vals, "args": pos}


def main():
    c = Ctx("C31", rule="an option table with a command line, or an argument vector handed to eu")
    r = c.sub("tables")
    cases = []
    for i in range(c.scale(700, 6000)):
        t = table(r)
        av, want = argv(r, t)
        cases.append(Case("parse-args(%s, [%s])" % (table_eu(t, r).replace("\n", "\n    "), ", ".join(strlit(a) for a in av)), want, kind="parse-args" if not isinstance(want, Err) else "parse-args refusal"))
    run_cases(c, cases, cmp=lambda got, want: same(got, want, False), per=25)

    # through the command line
    r = c.sub("argv")
    jobs = []
    for i in range(c.scale(300, 2500)):
        t = table(r)
        if r.random() < .35:
            t, av, want = None, [r.choice(TEXT) for _ in range(r.randint(0, 12))], None
        else:
            av, want = argv(r, t)
        jobs.append((i, t, table_eu(t, r) if t else None, av, want, r.randrange(10)))

    def go(job):
        i, t, tab, av, want, how = job
        src = "raw0: io.args\nn0: io.args count\n" + ("opts0: parse-args(%s, io.args)\n" % tab.replace("\n", "\n    ") if t else "")
        d = c.dir()
        open(os.path.join(d, "m.eu"), "w").write(src)
        open(os.path.join(d, "d.json"), "w").write('{"dd": 1}')
        args = [["-j", "m.eu"], ["run", "-j", "m.eu"], ["-x", "json", "m.eu"], ["-j", "d.json", "m.eu"], ["m.eu", "-j"], ["-j", "-e", "{raw: raw0 n: n0%s}" % (" opts: opts0" if t else ""), "m.eu"], ["-j", "--seed", "5", "m.eu"],
                ["run", "m.eu", "-x", "json"], ["-j", "-Q", "x=json@d.json", "m.eu"] if False else ["-j", "x=json@d.json", "m.eu"], ["-j", "-t", "main", "m.eu"]][how]
        if "-t" in args:
            open(os.path.join(d, "m.eu"), "w").write(src + "` :main\nall: {raw: raw0 n: n0%s}\n" % (" opts: opts0" if t else ""))
        cfg = CONFIGS[i % len(CONFIGS)]
        args = list(args)
        res = c.run(args + list(cfg[1]) + ["--suppress-type-warnings", "--"] + av, cwd=d, env=cfg[2], timeout=60)
        return job, args, cfg, src, res

    for job, args, cfg, src, res in c.pmap(go, jobs):
        i, t, tab, av, want, how = job
        if res.timeout:
            c.unsure("timeout")
            continue
        c.count(("argv", i))
        c.cov("argv " + " ".join(a for a in args if not a.startswith("{"))[:20])
        if isinstance(want, Err):
            if res.rc == 0 or not any(a in " ".join(res.errtext.split()) for a in want.any_of):
                c.violate("command line %r was not refused as it should be (rc %s): %s" % (av, res.rc, " ".join(res.errtext.split())[:160]), "want %r\n%s" % (want, res.brief()),
                          files={"m.eu": src}, args=args + list(cfg[1]) + ["--"] + av, env=cfg[2])
            continue
        exp = {"raw": av, "n": len(av)}
        if t:
            exp["opts"] = want
        try:
            got = jload(res.out)
            if how not in (5, 9):
                got = {k: got[k + "0"] for k in exp}
        except Exception as e:
            got = "unreadable"
        if res.rc != 0 or not same(got, exp, False):
            c.violate("command line %r gave %s, expected %s" % (av, (json.dumps(got, ensure_ascii=False)[:200] if res.rc == 0 else " ".join(res.errtext.split())[:200]), json.dumps(exp, ensure_ascii=False)[:300]), res.brief(),
                      files={"m.eu": src}, args=args + list(cfg[1]) + ["--"] + av, env=cfg[2])
    # words that are not utf-8, and a great many
    return c.finish(min_distinct=500)
