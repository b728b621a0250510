"""C17: formatting never changes a program."""
import os, re, subprocess
from ..core import *
from ..probe import ask
from ..progs import corpus
from .. import texts

WS = re.compile(r"[ \t\r\n]+")


def perturb(r, text, toks):
    """Other white space where there already is some; comments at line ends."""
    out, inpat, depth, line_start = [], 0, 0, True
    for kind, t in toks:
        if kind.endswith("PATTERN_START"):
            inpat += 1
        if kind.endswith("PATTERN_END"):
            inpat -= 1
        if kind == "WHITESPACE" and not inpat:
            k = r.random()
            if k < .35:
                out.append(t)
            elif k < .5:
                out.append(" ")
            elif k < .6:
                out.append("\n" * r.randint(1, 3) + " " * r.randint(0, 6))
            elif k < .7:
                out.append("\t" * r.randint(1, 2))
            elif k < .78:
                out.append("  \t \n")
            elif k < .84:
                out.append("\r\n")
            elif k < .9:
                out.append("   ")
            else:
                out.append("%s# c%d %s\n%s" % (r.choice([" ", "\n", "  "]), r.randrange(1000), r.choice(["", "(", "\"", "}", "é ", "# x", "trailing  "]), " " * r.randint(0, 4)))
        else:
            out.append(t)
    return "".join(out)


def config(r):
    return {"width": r.choice([80, 80, 40, 20, 10, 1, 120, 1000, 60]), "indent": r.choice([2, 2, 4, 1, 8, 3]), "reformat": r.random() < .6}


def first_diff(a, b):
    i = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
    return "...%s\n  against\n...%s" % (a[max(0, i - 60):i + 120], b[max(0, i - 60):i + 120])


def judge(c, text, cfg, kind):
    """Format one parseable text under one configuration; the formatted text, or None."""
    p = ask({"op": "unit", "text": text, "shape": True})
    if "shape" not in p or p["errors"]:
        c.cov("unparseable texts")
        return None
    f = ask(dict(cfg, op="fmt", text=text))
    mode = "reformat" if cfg["reformat"] else "conservative"
    c.count(repr((text, sorted(cfg.items()))))
    c.cov("%s, %s" % (kind, mode))
    files = {"text.eu": text}
    note = "width %(width)d indent %(indent)d" % cfg
    if "out" not in f:
        c.violate("%s formatting fails on parseable text: %s" % (mode, str(f)[:200]), "%s\n%r" % (note, text[:3000]), files)
        return None
    out = f["out"]
    files["formatted.eu"] = out
    detail = "%s\n--- text\n%s\n--- formatted\n%s\n" % (note, text[:3000], out[:3000])
    q = ask({"op": "unit", "text": out, "shape": True})
    if "shape" not in q or q["errors"]:
        c.violate("%s output does not parse: %s" % (mode, str(q.get("errors", q))[:200]), detail, files)
        return None
    if q["shape"] != p["shape"]:
        c.violate("%s output is another program" % mode, first_diff(p["shape"], q["shape"]) + "\n" + detail, files)
        return None
    if q["comments"] != p["comments"]:
        lost = [x for x in p["comments"] if x not in q["comments"]]
        c.violate("%s output %s" % (mode, "loses a comment" if lost else "disorders comments"), "%r\n%r\n%s" % (p["comments"][:20], q["comments"][:20], detail), files)
        return None
    if f["needs"] != (out != text):
        c.violate("needs_formatting says %s in %s mode, text %s" % (f["needs"], mode, "changes" if out != text else "stays"), detail, files)
    g = ask(dict(cfg, op="fmt", text=out))
    if g.get("out") != out:
        c.violate("%s formatting is not settled after one pass" % mode, detail + "--- again\n%s\n" % str(g.get("out"))[:3000], files)
        return None
    c.cov("tokens compared", p["nodes"])
    c.cov("comments kept", len(p["comments"]))
    c.cov("text changed" if out != text else "text already formatted")
    return out


def cli(c, text, cfg, i):
    """The command: --check, -w, standard input and standard output agree with one another."""
    d = c.dir()
    p = os.path.join(d, "main.eu")
    flags = ["--width", str(cfg["width"]), "--indent", str(cfg["indent"])] + (["--reformat"] if cfg["reformat"] else [])
    f = ask(dict(cfg, op="fmt", text=text))
    parses = not ask({"op": "unit", "text": text}).get("errors")
    want = f.get("out")

    def put():
        with open(p, "w", encoding="utf-8", newline="") as h:
            h.write(text)
    put()
    runs = [("stdout", ["fmt"] + flags + [p], None), ("check", ["fmt", "--check"] + flags + [p], None), ("write", ["fmt", "--write"] + flags + [p], None), ("stdin", ["fmt"] + flags, text), ("check stdin", ["fmt", "--check"] + flags, text)]
    for name, args, stdin in runs:
        put()
        r = c.run(args, cwd=d, stdin=stdin or b"", timeout=30)
        c.cov("command: " + name)
        now = open(p, encoding="utf-8", newline="").read()
        bad = None
        if not parses:
            if r.rc == 0:
                bad = "succeeds on text that does not parse"
            elif not r.err.strip():
                bad = "gives no message for text that does not parse"
            elif now != text:
                bad = "rewrites a file that does not parse"
        elif name in ("stdout", "stdin") and (r.rc != 0 or r.text != want):
            bad = "prints something else than the formatted text"
        elif name.startswith("check") and (r.rc != 0) != (want != text):
            bad = "status %s, but formatting %s the text" % (r.rc, "changes" if want != text else "keeps")
        elif name == "write" and (now != want or r.rc != 0):
            bad = "leaves the file with other than the formatted text"
        if bad is None and name != "write" and now != text:
            bad = "touches the file"
        if bad:
            c.violate("eu fmt (%s) %s" % (name, bad), r.brief() + "\n--- text\n%s\n--- want\n%s" % (text[:2000], str(want)[:2000]), {"main.eu": text}, args=args)


def main():
    c = Ctx("C17", rule="distinct (text, mode, width, indent) formatted, whose output was reparsed and compared node by node with the input")
    r = c.sub("main")
    base = [(n, t) for n, t in texts.eu_files() + texts.doc_snippets()]
    progs = []
    for ps in corpus(c, "progs", [(120, dict(depth=4, budget=30)), (60, dict(depth=6))] * (1 if c.quick else 5)):
        progs += ps
    jobs = []
    for n, t in base:
        for rf in (False, True):
            jobs.append((t, dict(config(r), reformat=rf), "repository text"))
    pool = [t for _, t in base if len(t) < 6000] + [p.src for p in progs]
    for p in progs:
        jobs.append((p.src, config(r), "generated program"))
    n = 30000 if c.quick else 250000
    for _ in range(n):
        jobs.append((None, r.choice(pool), r.getrandbits(64)))
    kept = []

    def go(j):
        if len(c.violations) >= 25 or not c.left(150, 700):
            return
        kind = j[2]
        if j[0] is None:
            rr = random.Random(j[2])
            t = j[1]
            if rr.random() < .4 and "\n" in t:
                ls = t.split("\n")
                i = rr.randrange(len(ls))
                t = "\n".join(ls[i:i + rr.randint(1, 10)])
            if rr.random() < .25:
                t = texts.mutate(rr, t, 1)
            toks = ask({"op": "unit", "text": t, "tokens": True})
            if toks.get("errors") or "tokens" not in toks:
                c.cov("unparseable texts")
                return
            t = perturb(rr, t, toks["tokens"]) if rr.random() < .85 else t
            j, kind = (t, config(rr)), "perturbed text"
        out = judge(c, j[0], j[1], kind)
        if out is not None and len(j[0]) < 5000:
            kept.append((j[0], j[1]))
    c.pmap(go, jobs)
    if c.violations:
        return c.finish(0)
    kept.sort(key=repr)
    r.shuffle(kept)
    bad = [(texts.mutate(r, t), config(r)) for t in r.sample(pool, 40 if c.quick else 300)]
    c.pmap(lambda ij: cli(c, ij[1][0], ij[1][1], ij[0]) if len(c.violations) < 25 else None, enumerate(kept[:60 if c.quick else 500] + bad))

    # a formatted program still has the value the model gives it
    def evaluate(ip):
        i, p = ip
        rr = random.Random("%s/%s" % (p.key, i))
        t = p.src
        toks = ask({"op": "unit", "text": t, "tokens": True})
        if not toks.get("errors") and "tokens" in toks:
            t = perturb(rr, t, toks["tokens"])
        cfg = config(rr)
        f = ask(dict(cfg, op="fmt", text=t))
        if "out" not in f:
            return
        a = c.eu_src(p.src, ["--suppress-type-warnings", "-j"] + p.args(), timeout=30)
        b = c.eu_src(f["out"], ["--suppress-type-warnings", "-j"] + p.args(), timeout=30)
        c.count("eval" + f["out"])
        c.cov("evaluated after formatting")
        if a.timeout or b.timeout:
            c.unsure("timeout")
        elif (a.rc, a.out) != (b.rc, b.out):
            c.violate("formatted program has another result (%s)" % ("reformat" if cfg["reformat"] else "conservative"), "%r\n%s\n%s" % (cfg, a.brief(), b.brief()), {"main.eu": t, "formatted.eu": f["out"]})
    if len(c.violations) < 25:
        c.pmap(evaluate, enumerate(progs[:150 if c.quick else 900]))
    for j in kept[:5]:
        c.sample(repr(j)[:400])
    return c.finish(2000)
