"""Source texts: the repository's own eucalypt files and documentation examples, and mutations."""
import os, random, re

REPO = os.environ.get("VERIF_REPO", "/repo")


def eu_files():
    """(name, text) of every .eu file in the tree."""
    out = []
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target", "node_modules"))
        for f in sorted(files):
            if f.endswith(".eu"):
                p = os.path.join(base, f)
                try:
                    out.append((os.path.relpath(p, REPO), open(p, encoding="utf-8", newline="").read()))
                except UnicodeDecodeError:
                    pass
    return out


def doc_snippets():
    out = []
    for base, dirs, files in os.walk(os.path.join(REPO, "docs")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".md"):
                t = open(os.path.join(base, f), encoding="utf-8").read()
                for i, m in enumerate(re.finditer(r"```eu[a-z,]*[^\n]*\n(.*?)```", t, re.S)):
                    out.append(("%s#%d" % (os.path.relpath(os.path.join(base, f), REPO), i), m.group(1)))
    return out


TOK = re.compile(r'"(?:[^"\\\n]|\\.)*"|#[^\n]*|\s+|[\w?!$-]+|.', re.S)
SPICE = ["(", ")", "[", "]", "{", "}", ":", "`", "\"", "'", ",", "#", "\\", ".", "..", "_", "•", "_0", "•1", "::", "⟦", "⟧", "«", "»", "‹", "›", "c\"", "r\"", "t\"", "s\"", "f\"",
         "{{", "}}", "\n", " ", "\t", "\r\n", "\u00a0", "\u2028", "é", "日本", "🎈", "\u0301", "∧", "¬", "↑", "=>", "->", "//", "//=", "+", "-", "-1", "1.", ".5", "0x", "1e5", "9" * 25, ":sym", ":\"q s\"",
         "'id q'", "a.b", "a.(b)", "a.[b]", "a.\"{b}\"", "__X", "true", "null", "{ :x }", "[x : y]", "{x}", "(l + r): ", "(- x): ", "f(x, y): ", "f[a, b]: ", "f{a b}: ", "` :suppress ", "` { doc: \"d\" }", "$", "%", "^", "&", "*", "~", "@", "!", "?", ";", "|",
         "\x00", "\x07", "\x1b", "\ufeff", "{ import: \"a\" }", "c\"\\x", "c\"\\u{", "\"{", "\"{a:", "\"{a:%d}\"", "\"{{a}\"", "t\"2020\"", "r\"\\\"", "--", "---", "#!", "/*", "=", "{ a: }", "( )", "[ , ]", "f ( x )", "f(x)(y)", "x.y.z", "⟦ x ⟧"]


def mutate(r, t, n=None):
    """A text a few edits away."""
    toks = TOK.findall(t)
    for _ in range(n or r.choice([1, 1, 1, 2, 3, 6])):
        k = r.random()
        i = r.randrange(len(toks)) if toks else 0
        if k < .22 and toks:
            del toks[i]
        elif k < .34 and toks:
            toks.insert(i, toks[r.randrange(len(toks))])
        elif k < .44 and len(toks) > 1:
            j = r.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif k < .80:
            toks.insert(i, r.choice(SPICE))
        elif k < .88 and toks:
            toks[i] = r.choice(SPICE)
        elif k < .94 and toks:
            j = min(len(toks), i + r.randint(1, 8))
            del toks[i:j]
        elif toks:
            j = min(len(toks), i + r.randint(1, 8))
            toks[i:i] = toks[i:j]
        t = "".join(toks)
        toks = TOK.findall(t)
    return t


def soup(r):
    ws = ["a", "b", "foo", "x", "1", "2.5", ":s", "\"t\"", "f(", "g(x)", " "] + SPICE
    return "".join(r.choice(ws) + (" " if r.random() < .4 else "\n" if r.random() < .1 else "") for _ in range(r.randint(1, 40)))


def chars(r):
    al = "ab_x01 \n\t\"'`(){}[]:,.#\\•∧¬é日🎈{}{}\"\"" + "ctrsf" + "+-*/=<>"
    return "".join(r.choice(al) for _ in range(r.randint(0, 60)))
