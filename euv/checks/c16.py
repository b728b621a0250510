"""C16: parsing is total and lossless."""
import re
from ..core import *
from ..probe import ask
from ..progs import corpus
from .. import texts

RNG = re.compile(r"(\d+)\.\.(\d+)")


def judge(c, text, op, kind):
    a = ask({"op": op, "text": text}, 60)
    c.count(op + text)
    c.cov(kind)
    files = {"text.eu": text}
    if "panic" in a:
        c.violate("parser panics: %s" % a["panic"][:200], repr(text[:2000]), files)
        return None
    if "died" in a:
        c.violate("parser dies (status %s)" % a["died"], repr(text[:2000]), files)
        return None
    if "timeout" in a:
        if len(text) < 20000:
            c.violate("parser does not end on %d characters" % len(text), repr(text[:2000]), files)
        else:
            c.unsure("slow parse")
        return None
    c.cov("tree elements checked", a["nodes"])
    if a["bad"]:
        c.violate("tree is not faithful to the text: %s" % a["bad"][0][:300], "%r\n%r" % (a["bad"][:5], text[:2000]), files)
    b = text.encode("utf-8")
    for e in a["errors"]:
        c.cov("error " + re.match(r"\w*", e).group(0))
        for m in RNG.finditer(e):
            s, t = int(m.group(1)), int(m.group(2))
            if not (s <= t <= len(b)):
                c.violate("error range outside the text: %s" % e, "length %d\n%r" % (len(b), text[:2000]), files)
            else:
                try:
                    b[:s].decode("utf-8"), b[:t].decode("utf-8")
                except UnicodeDecodeError:
                    c.violate("error range splits a character: %s" % e, repr(text[:2000]), files)
    c.cov("accepted" if not a["errors"] else "rejected")
    return not a["errors"]


OPEN = {"(": ")", "[": "]", "{": "}"}


def unbalanced(text):
    """True only for plain texts (no quotes, comments or unusual brackets) whose brackets do not match."""
    if re.search(r"[\"'`#⟦⟧«»‹›⟨⟩⌈⌉⌊⌋⦃⦄⦇⦈]", text):
        return False
    st = []
    for ch in text:
        if ch in OPEN:
            st.append(OPEN[ch])
        elif ch in ")]}":
            if not st or st.pop() != ch:
                return True
    return bool(st)


def front_end(c, text, i):
    """Accepted text goes through the later stages: they may refuse it, never crash."""
    cmd = [["dump", "cooked"], ["dump", "inlined"], ["check"], ["dump", "stg"], ["fmt"], ["dump", "desugared"]][i % 6]
    r = c.eu_src(text, cmd, timeout=30)
    c.cov("front end: " + " ".join(cmd))
    if r.timeout:
        c.unsure("timeout %s" % cmd)
    elif crashed(r):
        c.violate("accepted text crashes %s" % " ".join(cmd), r.brief() + "\n" + repr(text[:3000]), {"main.eu": text}, args=cmd)
    elif r.rc != 0 and not r.err.strip():
        c.violate("accepted text refused without a diagnostic by %s" % " ".join(cmd), r.brief() + "\n" + repr(text[:3000]), {"main.eu": text}, args=cmd)


def main():
    c = Ctx("C16", rule="distinct texts parsed by the crate's parser, whose tree and errors were checked against the text")
    r = c.sub("main")
    base = texts.eu_files() + texts.doc_snippets()
    progs = []
    for ps in corpus(c, "progs", [(60, dict(depth=4, budget=30)), (30, dict(depth=6))] * (1 if c.quick else 5)):
        progs += [("generated", p.src) for p in ps]
    jobs = []
    for n, t in base:
        jobs.append((t, "unit", "repository file"))
        jobs.append((t, "expr", "repository file as expression"))
    small = [t for _, t in base + progs if len(t) < 6000]
    for _, t in progs:
        jobs.append((t, "unit", "generated program"))
    n = 50000 if c.quick else 400000
    for _ in range(n):
        t = r.choice(small)
        if r.random() < .5 and "\n" in t:
            ls = t.split("\n")
            i = r.randrange(len(ls))
            t = "\n".join(ls[i:i + r.randint(1, 8)])
        jobs.append((texts.mutate(r, t), "expr" if r.random() < .15 else "unit", "mutated"))
    for _ in range(n // 4):
        jobs.append((texts.soup(r), "expr" if r.random() < .25 else "unit", "token soup"))
        jobs.append((texts.chars(r), "expr" if r.random() < .25 else "unit", "character soup"))
    for t in r.sample(small, 25 if c.quick else 200):
        t = t[:1500]
        for i in range(0, len(t), 1 if len(t) < 300 else 3):
            jobs.append((t[:i], "unit", "prefix"))
    for d in (50, 300, 1500):
        for o, cl in (("(", ")"), ("[", "]"), ("{a: ", "}"), ("f(", ")"), ("\"{", "}\""), ("x.(", ")"), ("¬", ""), ("`a ", ""), ("[x : ", "]"), ("⟦", "⟧"), ("(", ""), ("", "]")):
            jobs.append(("r: " + o * d + "1" + cl * d + "\n", "unit", "deep"))
    r.shuffle(jobs)
    accepted = []

    def go(j):
        if len(c.violations) >= 20 or not c.left(120, 600):
            return
        ok = judge(c, *j)
        if ok and unbalanced(j[0]):
            c.violate("text with unmatched brackets is accepted", repr(j[0][:2000]), {"text.eu": j[0]})
        if ok and j[1] == "unit" and j[2] != "deep":
            accepted.append(j[0])
    c.pmap(go, jobs)
    accepted = sorted({t for t in accepted if len(t) < 8000})
    r.shuffle(accepted)
    m = 1500 if c.quick else 6000
    c.pmap(lambda it: front_end(c, it[1], it[0]) if c.left(200, 800) and len(c.violations) < 20 else None, enumerate(accepted[:m]))
    for j in jobs[:8]:
        c.sample(repr(j[0][:300]))
    return c.finish(5000)
