"""C24: every failure is a clean, located diagnostic."""
import re
from ..batch import *
from ..val import *
import shutil
from .. import texts, docs
from ..core import Dup

# expressions that fail wherever they are evaluated: (text, words one of which the diagnostic holds)
FAIL = [
    ('1 + "s"', ["expected number"]), (':k * 2', ["expected number"]), ('{a: 1}.missing', ["missing", "not found"]), ('panic("boom 1")', ["boom 1"]),
    ('[] head', ["head", "empty"]), ('{a: 1} lookup(:nokey)', ["nokey"]), ('5 / 0', ["zero"]), ('[1, 2] nth(9)', []),
    ('"x" str.of + 1', ["expected number"]), ('"abc" num', []), ('"{{" parse-as(:json)', []), ('"a" str.matches?("(")', []), ('5 head', []), ('null + 1', ["expected number"]),
    ('cal.parse("rubbish")', []), ('[1, 2, 3] sum2', None), ('"2024-99-99" cal.parse', []), ('true + 1', ["expected number"]), ('"s" < 3', []), ('[1] < 2', []), ('negate("x")', []),
    ('{a: 1} first', None), ('(1 //=> 2)', ["assertion"]), ('3 assert((> 5), "too small")', ["too small"]), ('"x" map(inc)', []), ('1.5 % "q"', []), ('[1, :a] foldl(+, 0)', []), ('keys(3)', []),
    ('5 elements', []), ('"q" reverse', []), ('fn-not({})', None), ('max(1, "b")', []), ('str.letters(5)', []), ('"a" str.replace(3, "b")', []), ('[3, "a"] sort-nums', []),
    ('ch(300)' if False else '"v" str.split-on(4)', []), ('sym(5)', []), ('merge(1, {a: 2})', []), ('nth(-1, [1, 2])', []), ('last([])', []), ('1(2)' if False else '{} lookup(:z)', ["z"]),
]
FAIL = [f for f in FAIL if f[1] is not None]

LIBRARY = ['"q" reverse', "[1, 2] nth(9)", "nth(-1, [1, 2])", "keys(3)", "last([])"]

# a carrier: lines of a program, %E marks the failing expression; every line given in `ok` may be blamed
CARRIERS = [
    ["main: %E"],
    ["main: [1, %E, 3]"],
    ["main: {", "  a: 1", "  b: %E", "}"],
    ["f(x): %E", "main: f(3)"],
    ["f(x): [x, %E]", "g(y): f(y) second", "", "main: {", "  q: g(4)", "}"],
    ["main: if(true,", "  %E,", "  2)"],
    ["v: %E", "", "main: {x: 1, y: v}"],
    ["v: %E", "w: [v, v]", "# between", "main: w"],
    ["f(x): %E", "main: [1, 2] map(f)"],
    ['e: %E', 'main: "<{e}>"'],
    ["main: {", "  a: %E", "  b: a", "}.b"],
    ["f(x): { r: %E }.r", "", "main: f(9)"],
    ["main: [9, 8] map(k)", "k(i): if(i = 8, %E, i)"],
    ["main: range(0, 5) filter(p)", "p(i): if(i = 3, %E, true)"],
    ["main: foldl(s, 0, [1, 2])", "s(a, b): if(b = 2, %E, a + b)"],
    ["main: {k: {l: {m: %E}}}"],
    ["mid(x): x", "main: mid(%E)"],
    ["main: cond([", "  false => 1,", "  true => %E,", "  3])"],
    ["é: \"ü日本🎉\"", "main: [é, \"日本語🎉\", %E]"],
]


def program(r, e):
    lines = []
    for _ in range(r.randint(0, 6)):
        lines.append(r.choice(["# a comment", "", "pad%d: %d" % (len(lines), r.randint(0, 9)), "fun%d(x): x + %d" % (len(lines), r.randint(0, 9)), "blk%d: {" % len(lines) + " a: 1 }", "é%d: \"日本🎉\"" % len(lines)]))
    body = r.choice(CARRIERS)
    base = len(lines)
    ok = set()
    for i, l in enumerate(body):
        if "%E" in l:
            ok.add(base + i + 1)
        if re.search(r"\b[fgpsk]\(|\b[fgpsk]\)|mid\(|foldl\(s|\bv\b|\bw\b|\{e\}|b: a|\.b", l):
            ok.add(base + i + 1)
        lines.append(l.replace("%E", e))
    ends = r.random()
    if ends < .5:
        lines.append("after: 2 # trailing")
    return "\n".join(lines) + ("\n" if r.random() < .8 else ""), ok


def nest(r):
    n = r.choice([5, 50, 300, 1500])
    a, b = r.choice([("(", ")"), ("[", "]"), ("{a: ", "}"), ("[1, ", "]"), ("f(", ")"), ("-", ""), ("not(", ")"), ("{ a: { b: 1 } c: ", "}"), ("[:a, [", "]]"), ("(1 + ", ")"), ("⟦ ", " ⟧"), ('"{', '}"'), ("if(true, ", ", 2)"), ("` ", "")])
    k = n if r.random() < .8 else n + r.choice([-1, 1])
    return "x: %s1%s\n" % (a * n, b * k)


def check_pos(p, files):
    """Does a position of a JSON diagnostic exist in the source?"""
    if p is None or p.get("file") is None:
        return True
    if not p.get("in_user_file"):
        return True
    f = p["file"]
    if f not in files:
        return False
    ls = files[f].split("\n")
    ln, col = p.get("line"), p.get("column")
    return isinstance(ln, int) and isinstance(col, int) and 1 <= ln <= len(ls) and 1 <= col <= len(ls[ln - 1]) + 1


def main():
    c = Ctx("C24", rule="a failing program, a damaged document or a command line, with the diagnostic it ends in")
    codes = {}

    def catalogue(code):
        if code not in codes:
            res = c.run(["error", code], timeout=30)
            codes[code] = res.rc == 0 and code in res.out.decode("utf-8", "replace")
        return codes[code]

    # 1. located failures
    r = c.sub("located")
    jobs = []
    for i in range(c.scale(500, 5000)):
        e, words = FAIL[i % len(FAIL)] if i < 2 * len(FAIL) else r.choice(FAIL)
        src, ok = program(r, e)
        jobs.append((i, e, words, src, ok))

    def go(job):
        i, e, words, src, ok = job
        cfg = CONFIGS[i % len(CONFIGS)]
        args = ["-j", "--suppress-type-warnings", "-e", "main", "--error-format", "json"] + list(cfg[1])
        if i % 3 == 0:
            args = ["-j", "--suppress-type-warnings", "-e", "main"] + list(cfg[1])
        res = c.eu_src(src, args, env=cfg[2], timeout=60)
        return job, args, cfg, res

    for job, args, cfg, res in c.pmap(go, jobs):
        i, e, words, src, ok = job
        if res.timeout:
            c.unsure("timeout")
            continue
        c.count((e, src, tuple(args)))

        def bad(what, sig=None):
            c.violate("`%s`: %s" % (e, what), res.brief(), files={"main.eu": src}, args=args + ["main.eu"], env=cfg[2], signature=sig)
        err = res.err.decode("utf-8", "replace")
        if crashed(res):
            bad("crashed (rc %s): %s" % (res.rc, " ".join(err.split())[:200]))
            continue
        if res.rc == 0:
            bad("succeeded with %r" % res.out[:100])
            continue
        if res.out.strip():
            bad("failed, but wrote %r" % res.out[:100])
        if not err.strip():
            bad("no diagnostic (rc %s)" % res.rc)
            continue
        if "json" in args[4:]:
            c.cov("json diagnostic")
            try:
                d = json.loads(re.sub(r"^EXPECT FAILED[^\n]*\n", "", err))
            except Exception:
                bad("diagnostic is not JSON: %s" % err[:200])
                continue
            poss = [d.get("primary")] + [l.get("pos") for l in d.get("labels", [])] + [t.get("pos") for t in d.get("trace", [])]
            files = {"main.eu": src, "'main'": "main"}
            if not all(check_pos(p, files) for p in poss):
                bad("position outside the source: %s" % json.dumps(poss)[:300])
            if d.get("level") != "error" or not d.get("message"):
                bad("no message or level: %s" % err[:200])
            if d.get("code") is not None and not catalogue(d["code"]):
                bad("code %s is not in the catalogue" % d["code"])
            msg = d["message"] + " ".join(d.get("notes", []))
            pr = d.get("primary") or {}
            line = pr.get("line") if pr.get("file") == "main.eu" else None
        else:
            c.cov("human diagnostic")
            msg = err
            m = re.search(r"main\.eu:(\d+):(\d+)", err)
            line = int(m.group(1)) if m else None
        if words and not any(w in msg for w in words):
            bad("diagnostic says %r" % msg[:200])
        if line is None:
            bad("no position in the program: %s" % " ".join(err.split())[:250],
                "lookup of a missing key" if "lookup(" in e else "library failure in the source prelude" if e in LIBRARY and "--source-prelude" in args else None)
        elif line not in ok:
            bad("blamed line %s, not %s: %s" % (line, sorted(ok), " ".join(err.split())[:200]))

    # 2. nothing crashes, and nothing fails in silence
    r = c.sub("robust")
    eus = [t[-1] if isinstance(t, tuple) else t for t in texts.eu_files() + texts.doc_snippets()]
    makers = dict(json=docs.json_doc, yaml=docs.yaml_doc, toml=docs.toml_doc, csv=docs.csv_doc, xml=docs.xml_doc, edn=docs.edn_doc, jsonl=docs.jsonl_doc, text=docs.text_doc)
    jobs = []
    for i in range(c.scale(900, 20000)):
        q = r.random()
        if q < .62:
            t = r.choice(eus) if r.random() < .6 else program(r, r.choice(FAIL)[0])[0]
            if len(t) > 4000:
                a = r.randint(0, len(t) - 2000)
                t = t[t.find("\n", a) + 1:a + 2000]
            m = r.random()
            t = texts.mutate(r, t) if m < .75 else texts.soup(r) if m < .85 else nest(r) if m < .95 else texts.chars(r)
            cmd = r.choice([["-j", "main.eu"], ["main.eu"], ["-j", "main.eu"], ["-j", "--error-format", "json", "main.eu"], ["check", "main.eu"], ["check", "--strict", "main.eu"], ["fmt", "main.eu"], ["fmt", "--reformat", "main.eu"],
                            ["doc", "main.eu"], ["test", "main.eu"], ["list-targets", "main.eu"], ["-j", "--no-dce", "main.eu"], ["-x", r.choice(["toml", "edn", "eu", "html", "text", "yaml"]), "main.eu"], ["explain", "main.eu"],
                            ["-j", "--suppress-demand-analysis", "main.eu"], ["-j", "--debug-trace", "main.eu"], ["-j", "--source-prelude", "main.eu"]]
                           + [["dump", ph, "main.eu"] for ph in ("ast", "desugared", "cooked", "inlined", "pruned", "stg")])
            jobs.append((i, "program", cmd, {"main.eu": t}))
        elif q < .9:
            f = r.choice(list(makers))
            for _ in range(20):
                try:
                    t = makers[f](r)
                    break
                except Exception:
                    t = "{}"
            while isinstance(t, tuple):
                t = t[0]
            if not isinstance(t, (str, bytes)):
                t = str(t)
            if isinstance(t, bytes):
                t = t.decode("utf-8", "replace")
            t = texts.mutate(r, t)
            b = bytearray(t.encode("utf-8", "surrogatepass"))
            if b and r.random() < .2:
                b[r.randrange(len(b))] = r.choice([0, 0xFF, 0xC3, 0x80, 0xF0, 0xED, 13, 9, 0x85])
            jobs.append((i, f, r.choice([["-j", "d=%s@data" % f], ["-x", r.choice(["yaml", "eu", "edn"]), "d=%s@data" % f], ["-j", "%s@data" % f, "-e", "data" if False else "1"], ["check", "%s@data" % f], ["-j", "--error-format", "json", "d=%s@data" % f]]), {"data": bytes(b)}))
        else:
            words = ["-j", "-x", "json", "nosuchformat", "-e", "1 + 1", "main", "(", "-t", "main", "nosuch", "-o", "o.out", "-L", ".", "-Q", "-c", "-N", "x=json@d.json", "d.json", "=@", "a=@d.json", "yaml@d.json", "bogus@d.json", "nofile.eu", "main.eu", "-",
                     "resource:lens", "resource:nosuch", "--seed", "5", "x", "--heap-limit-mib", "1", "0", "--error-format", "json", "human", "odd", "--debug-trace", "-S", "--no-dce", "--strict", "--source-prelude", "-d", "--", "check", "fmt",
                     "test", "dump", "doc", "error", "explain", "list-targets", "run", "version", "--version", "-h", "--help", "--statistics-file", "s.json", "", "é", "git:x", "http://localhost:1/x", "@", "=", "--indent", "--width", "-w", "0", "99999999999999999999"]
            jobs.append((i, "command line", [r.choice(words) for _ in range(r.randint(0, 6))], {"main.eu": "main: 1\n", "d.json": '{"a": 1}', "o.out": ""}))

    def rgo(job):
        i, kind, cmd, files = job
        d = c.dir()
        for n, t in files.items():
            with open(os.path.join(d, n), "wb") as f:
                f.write(t if isinstance(t, bytes) else t.encode("utf-8", "surrogatepass"))
        res = c.run(cmd, cwd=d, timeout=15)
        shutil.rmtree(d, ignore_errors=True)
        return job, res

    for job, res in c.pmap(rgo, jobs):
        i, kind, cmd, files = job
        if res.timeout:
            c.unsure("no answer in time")
            continue
        c.count((kind, tuple(cmd), str(files)))
        c.cov("%s rc %s" % (kind if kind in ("program", "command line") else "document", res.rc))

        def bad(what, sig=None):
            c.violate("%s %r: %s" % (kind, cmd, what), res.brief(), files={k: v for k, v in files.items()}, args=cmd, signature=sig)
        err = res.err.decode("utf-8", "replace")
        if crashed(res):
            bad("crashed (rc %s): %s" % (res.rc, " ".join(err.split())[:300]))
        elif res.rc != 0 and not err.strip() and not res.out.strip():
            bad("ended with status %s and no word" % res.rc)
        elif res.rc == 0 and "error" in err.lower() and re.search(r"(?m)^error(\[|:)", err) and cmd[0] not in ("check", "doc", "dump"):  # dump shows what it could make of a broken unit
            bad("reported an error and exit status 0: %s" % err[:200])
        elif res.rc == 0 and kind != "command line" and "-j" in cmd:
            try:
                jload(res.out) if res.out.strip() else None
            except Dup:
                pass
            except Exception:
                bad("ended well with output that is not JSON: %r" % res.out[:150])

    for code in ["EU-EVAL-TYPE", "EU-RENDER-SHAPE", "EU-EVAL-CONTRACT", "EU-RENDER-UNREPRESENTABLE"]:
        c.count(("code", code))
        if not catalogue(code):
            c.violate("eu error %s knows no such code" % code, "", args=["error", code])
    return c.finish(min_distinct=400)
