"""C19: inputs, imports and targets combine as documented."""
import re
from ..core import *

NAMES = ["alpha", "beta", "gamma", "delta", "kappa", "sigma", "omega", "tau", "rho", "zeta", "last", "count", "inner", "total"]
FN = ["fa", "fb", "fc", "fd"]


def jv(r):
    try:
        return jload(r.text)
    except Exception:
        return "no JSON"


class Bad(Exception):
    """The reference has no settled meaning; the generator avoids it."""


class Unit:
    """A file: imports, declarations, and what it offers to others."""
    def __init__(self, path, data=None):
        self.path, self.data = path, data      # data: dict for data files
        self.imports = []                      # [(name or None, Unit, spelling)]
        self.decls = []                        # [Decl]
        self.text = None

    def leaks(self):
        """Names an importer may also see, by way of this unit's own imports: not relied on."""
        out = set()
        for n, u, _ in self.imports:
            if n:
                out.add(n)
            else:
                out |= u.names() | u.leaks()
        return out

    def names(self):
        if self.data is not None:
            return set(k for k in self.data)
        return set(d.name for d in self.decls)

    def public(self):
        if self.data is not None:
            return dict(self.data)
        return {d.name: d.value for d in self.decls if not d.internal}

    def rendered(self):
        if self.data is not None:
            return dict(self.data)
        return {d.name: d.shown() for d in self.decls if not (d.internal or d.suppressed or d.fn)}

    def all_units(self):
        out = [self]
        for _, u, _ in self.imports:
            out += u.all_units()
        for d in self.decls:
            for _, u, _ in d.scoped:
                out += u.all_units()
        return out


class Decl:
    def __init__(self, name, value, text):
        self.name, self.value, self.text = name, value, text
        self.internal = self.suppressed = self.fn = False
        self.target = None
        self.fmt = None
        self.scoped = []
        self.block = None       # nested: dict of rendered values

    def shown(self):
        return self.block if self.block is not None else self.value


class World:
    def __init__(self, rng):
        self.r = rng
        self.n = 0
        self.units = []
        self.files = {}

    def uid(self):
        self.n += 1
        return self.r.randrange(10 ** 6, 10 ** 9) * 100 + self.n

    def place(self, d, stem, ext):
        """Where to put a new unit: files in different directories may have the same name."""
        p = os.path.join(d, "%s.%s" % (stem, ext))
        if self.r.random() < 0.6 or p in self.files:
            p = os.path.join(d, "%s%d.%s" % (stem, len(self.units), ext))
        return p

    def some_names(self, k):
        """Names for a new unit: some its own, some that other units may have as well."""
        out = self.r.sample(NAMES, k)
        return [n + str(len(self.units)) if self.r.random() < 0.8 else n for n in out]

    # -- lookup ---------------------------------------------------------------
    @staticmethod
    def through(imports, name):
        """(found, value) of name through a list of imports; later ones win."""
        for n, u, _ in reversed(imports):
            if n is not None:
                if n == name:
                    return True, u.public()
                continue
            pub = u.public()
            if name in pub:
                return True, pub[name]
            if name in u.leaks():
                raise Bad(name)
        return False, None

    def data_unit(self, d):
        r = self.r
        keys = self.some_names(r.randint(1, 4))
        data = {k: (self.uid() if r.random() < 0.8 else {"in": self.uid(), "er": [self.uid(), "t%d" % r.randint(0, 9)]}) for k in keys}
        kind = r.choice(["json", "yaml", "toml", "edn", "json", "yaml"])
        if kind == "toml":
            data = dict(sorted(data.items(), key=lambda kv: isinstance(kv[1], dict)))
        ext = kind if r.random() < 0.7 else r.choice(["txt", "dat", "cfg", "json", "yaml"])
        path = self.place(d, "d", ext)
        u = Unit(path, data)
        u.fmt = kind if ext != kind else (kind if r.random() < 0.2 else None)
        if kind in ("json", "yaml"):
            if kind == "json" or r.random() < 0.3:
                t = json.dumps(data)
            else:
                t = "".join("%s: %s\n" % (k, json.dumps(v)) for k, v in data.items())
        elif kind == "toml":
            def tv(v):
                return json.dumps(v)
            t = ""
            for k, v in data.items():
                if isinstance(v, dict):
                    t += "[%s]\n" % k + "".join("%s = %s\n" % (a, tv(b)) for a, b in v.items())
                else:
                    t += "%s = %s\n" % (k, tv(v))
        else:
            def ed(v):
                if isinstance(v, dict):
                    return "{" + " ".join(":%s %s" % (a, ed(b)) for a, b in v.items()) + "}"
                if isinstance(v, list):
                    return "[" + " ".join(map(ed, v)) + "]"
                return json.dumps(v)
            t = ed(data)
        u.text = t
        self.files[path] = t
        self.units.append(u)
        return u

    def spelled(self, name, u, frm):
        """The spelling of an import of u in the file frm (or on the command line when frm is None)."""
        p = os.path.relpath(u.path, os.path.dirname(frm) or ".") if frm is not None else u.path
        fmt = getattr(u, "fmt", None)
        if fmt is None and u.data is None and self.r.random() < 0.1:
            fmt = "eu"
        return (name + "=" if name else "") + (fmt + "@" if fmt else "") + p

    def pick_imports(self, path, pool, taken, lim):
        r = self.r
        out = []
        for u in r.sample(pool, min(len(pool), r.randint(0, lim))):
            name = None
            if r.random() < 0.5:
                name = r.choice([n for n in ["n1", "n2", "n3", "mod", "cfg"] if n not in taken])
                taken = taken | {name}
            out.append((name, u, self.spelled(name, u, path)))
        return out

    def clause(self, imports):
        sp = ['"%s"' % s for _, _, s in imports]
        return "import: " + (sp[0] if len(sp) == 1 and self.r.random() < 0.6 else "[" + ", ".join(sp) + "]")

    def ref(self, scopes):
        """An integer-valued reference resolvable in `scopes`: a list, innermost first, of
        dicts or of import lists. Returns (text, value) or None."""
        r = self.r
        cand = set()
        for s in scopes:
            if isinstance(s, dict):
                cand |= set(s)
            else:
                for n, u, _ in s:
                    cand |= {n} if n else set(u.public())
        cand = sorted(cand)
        r.shuffle(cand)
        for name in cand[:6]:
            try:
                for s in scopes:
                    if isinstance(s, dict):
                        found, v = name in s, s.get(name)
                    else:
                        found, v = self.through(s, name)
                    if found:
                        break
            except Bad:
                continue
            t = name
            while isinstance(v, dict):
                ks = [k for k in v if not k.startswith("'")]
                if not ks:
                    break
                k = r.choice(sorted(ks))
                t, v = t + "." + k, v[k]
            if isinstance(v, tuple):        # a function adding a constant
                a = self.uid()
                return "%s(%d)" % (t, a), a + v[1]
            if isinstance(v, int):
                return t, v
        return None

    def expr(self, scopes, k=3):
        base = self.uid()
        t, v = str(base), base
        for _ in range(self.r.randint(0, k)):
            x = self.ref(scopes)
            if x:
                t, v = t + " + " + x[0], v + x[1]
        return t, v

    def eu_unit(self, d, pool, outer=(), depth2=True):
        """outer: scopes of earlier inputs, innermost first."""
        r = self.r
        path = self.place(d, "u", "eu")
        u = Unit(path)
        u.fmt = None
        lines = []
        names = self.some_names(r.randint(2, 5))
        u.imports = self.pick_imports(path, pool, set(names), 3)
        meta = []
        if u.imports:
            meta.append(self.clause(u.imports))
        if r.random() < 0.2:
            meta.append('doc: "unit %d"' % len(self.units))
        r.shuffle(meta)
        if meta:
            lines.append("{ %s }" % " ".join(meta))
        own = {}
        # every declaration sees every sibling: values are assigned in order, references go to earlier ones only
        fnames = [r.choice(FN) + ("%d" % len(self.units) if r.random() < 0.7 else "")]
        blocked = set(names) | set(fnames)
        for nm in names + ([fnames[0]] if r.random() < 0.5 else []):
            # a name declared here hides the same name from outside, also where it is declared further down
            outs = [self.hide(s, blocked) for s in [u.imports] + list(outer)]
            scopes = [own] + outs
            dm = []
            dec = Decl(nm, None, None)
            if nm in fnames:
                t, v = self.expr(scopes, 2)
                dec.fn = True
                dec.value = ("fn", v)
                body = "%s(z): z + %s" % (nm, t)
            else:
                kind = r.random()
                if kind < 0.2 and pool:
                    dec.scoped = self.pick_imports(path, pool, set(), 2)
                    if dec.scoped:
                        dm.append(self.clause(dec.scoped))
                    scopes = [dec.scoped] + scopes
                if kind > 0.75:
                    # a block, whose members hide outer names, with an import of its own perhaps
                    ks = r.sample(NAMES, r.randint(1, 3))
                    inner = {}
                    parts = []
                    shown = {}
                    for k in ks:
                        sc = [inner] + [self.hide(s, set(ks)) for s in scopes]
                        im = self.pick_imports(path, pool, set(ks), 1) if pool and r.random() < 0.2 else []
                        t, v = self.expr(([im] if im else []) + sc, 2)
                        sup = r.random() < 0.1
                        dec.scoped = dec.scoped + im
                        mm = ([self.clause(im)] if im else []) + (["export: :suppress"] if sup else [])
                        parts.append(("  ` { %s }\n" % " ".join(mm) if mm else "") + "  %s: %s" % (k, t))
                        inner[k] = v
                        if not sup:
                            shown[k] = v
                    dec.value = dict(inner)
                    dec.block = shown
                    body = "%s: {\n%s\n}" % (nm, "\n".join(parts))
                else:
                    t, dec.value = self.expr(scopes)
                    body = "%s: %s" % (nm, t)
            x = r.random()
            if x < 0.12:
                dec.internal = True
                if dm or r.random() < 0.6:
                    dm.append("export: :internal")
                else:
                    dm.append(":internal")
            elif x < 0.24:
                dec.suppressed = True
                if dm or r.random() < 0.5:
                    dm.append("export: :suppress")
                else:
                    dm.append(":suppress")
            if not dec.fn and not dec.internal and r.random() < 0.2 and ":suppress" not in dm and ":internal" not in dm:
                dec.target = "t%d" % r.randint(1, 3)
                dm.append("target: :" + dec.target)
                if r.random() < 0.3:
                    dec.fmt = "json"
                    dm.append("format: :json")
            if dm:
                one = dm[0]
                lines.append("` " + one if one.startswith(":") else "` { %s }" % " ".join(dm))
            lines.append(body)
            own[nm] = dec.value
            u.decls.append(dec)
        u.text = "\n".join(lines) + "\n"
        self.files[path] = u.text
        self.units.append(u)
        return u

    def hide(self, scope, names):
        if isinstance(scope, dict):
            return {k: v for k, v in scope.items() if k not in names}
        return HiddenImports(scope, names)


class HiddenImports(list):
    """An import list seen past declarations that hide some of its names."""
    def __init__(self, imports, names):
        list.__init__(self, imports)
        self.hidden = set(names) | getattr(imports, "hidden", set())


def through(imports, name):
    if name in getattr(imports, "hidden", ()):
        return False, None
    return _through(imports, name)


_through = World.through
World.through = staticmethod(through)


def plain(v):
    """What a value looks like rendered as JSON."""
    return v


def strip_fns(v):
    if isinstance(v, dict):
        return {k: strip_fns(x) for k, x in v.items() if not isinstance(x, tuple)}
    return v


def shadow_trap(units):
    """A file imported more than once through the units of one program, by way of unit-level imports, with
    a name of it declared elsewhere too: recorded as a finding, so not generated."""
    flat = []
    for u in units:
        flat += u.all_units()
    seen = {}
    for u in flat:
        seen[u.path] = seen.get(u.path, 0) + 1
    uniq = {u.path: u for u in flat}
    for p, n in seen.items():
        if n > 1:
            for q, o in uniq.items():
                if q != p and (uniq[p].names() | {n for n, _, _ in uniq[p].imports if n}) & (
                        o.names() | {n for n, _, _ in o.imports if n}):
                    return True
    return False


def project(rng):
    """Files only: a pool of units importing one another."""
    w = World(rng)
    dirs = ["", "lib", "lib/deep", "other"]
    pool = []
    for _ in range(rng.randint(1, 3)):
        pool.append(w.data_unit(rng.choice(dirs)))
    for _ in range(rng.randint(1, 4)):
        pool.append(w.eu_unit(rng.choice(dirs), list(pool)))
    return w, pool


def run_project(c, files, args, cfg, stdin=b"", timeout=60):
    d = c.dir()
    try:
        for n, t in files.items():
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", encoding="utf-8") as f:
                f.write(t)
        return c.run(cfg[1] + args, cwd=d, env=cfg[2], stdin=stdin, timeout=timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def one(c, seed):
    r = c.sub("world", seed)
    w, pool = project(r)
    cfg = r.choice(CONFIGS)
    mode = r.choice(["inputs", "inputs", "inputs", "target", "eval", "evaltarget", "collect", "list", "invisible", "invisible", "stdin"])
    # the inputs of this run
    ninp = r.randint(1, 4)
    inputs = []            # (name, unit)
    scopes = []            # of what came before, innermost first
    names_used = set()

    def outer_dict():
        """Names visible to a unit that follows `inputs`: later ones hide earlier ones."""
        d = {}
        bad = set()
        for n, u in inputs:
            if n:
                d[n] = u.public()
                bad.discard(n)
                continue
            for x in u.leaks():
                # (what an input's imports let through is not settled)
                bad.add(x)
            for k, v in u.public().items():
                d[k] = v
                bad.discard(k)
        return {k: v for k, v in d.items() if k not in bad}

    for i in range(ninp):
        name = None
        if r.random() < 0.35:
            name = r.choice([n for n in ["first", "second", "third", "cfg", "n1"] if n not in names_used])
            names_used.add(name)
        if mode == "collect":
            name, oo = None, []
        else:
            oo = [outer_dict()]
        if i == ninp - 1 or r.random() < 0.6:
            u = w.eu_unit(r.choice(["", "lib", "other"]), [p for p in pool], outer=oo)
        else:
            u = r.choice(pool)
            if any(u is x for _, x in inputs):
                continue
            if u.data is None and mode != "collect" and any(u is x for _, x in inputs):
                continue
        inputs.append((name, u))
    if shadow_trap([u for _, u in inputs]):
        c.cov("skipped: the recorded shadowing finding could show")
        return
    argv = [w.spelled(n, u, None) for n, u in inputs]
    stdin = b""
    if mode == "stdin":
        data = {k: w.uid() for k in r.sample(NAMES, 3)}
        fmt = r.choice(["json", "yaml"])
        stdin = json.dumps(data).encode()
        k = sorted(data)[0]
        nm = r.choice([None, "piped"])
        args = ["%s%s@-" % (nm + "=" if nm else "", fmt)] + argv + ["-j", "--suppress-type-warnings", "-e", "[%s]" % ("piped." + k if nm else k)]
        want = [data[k]]
        if not nm:
            ds = outer_dict()
            leaks = set().union(*[u.leaks() for n, u in inputs if not n] or [set()])
            hid = set().union(*[u.names() | u.leaks() for n, u in inputs if not n] or [set()]) | names_used
            if k in hid:
                c.cov("skipped: hidden stdin name")
                return
        return judge(c, w, args, cfg, want, mode, stdin)
    last_name, last = inputs[-1]
    body = strip_fns(last.rendered())
    if last_name:
        body = {last_name: body}
    common = ["-j", "--suppress-type-warnings"]
    if r.random() < 0.3:
        common.append("--no-dce")
    if mode == "inputs":
        return judge(c, w, argv + common, cfg, body, mode)
    if mode == "collect":
        nm = "got"
        exp = [strip_fns(u.rendered()) for _, u in inputs]
        args = ["-c", nm] + argv
        if r.random() < 0.5:
            args.insert(2, "-N")
            keys = [u.path for _, u in inputs]
            want = dict(zip(keys, exp))
        else:
            want = exp
        if r.random() < 0.5:
            args += ["-e", nm]
        else:
            want = {nm: want}
            if "-N" in args and any(d.target for _, u in inputs for x in u.all_units() for d in x.decls):
                pass
        return judge(c, w, args + common, cfg, want, mode)
    if mode in ("eval", "evaltarget"):
        t, v = w.expr([outer_dict()], 4)
        e = "[%s]" % t
        extra = []
        if mode == "evaltarget" and r.random() < 0.5:
            extra = ["-e", "0"]
        return judge(c, w, argv + common + extra + ["-e", e], cfg, [v], mode)
    if mode in ("target", "list"):
        # targets of all inputs, later ones selected when they share a name
        tg = {}
        dup = set()
        for n, u in inputs:
            here = set()
            for d in u.decls:
                if d.target:
                    tg[d.target] = (n, u, d)
                    here.add(d.target)
        imported = set()
        for n, u in inputs:
            for x in u.all_units():
                if x is not u:
                    imported |= {d.target for d in x.decls if d.target}
        if mode == "list":
            cmd = ["list-targets"] + argv
            res = run_project(c, w.files, cmd, ("", [], {}))
            got = set(re.findall(r"^ - (\S+)", res.text, re.M))
            want = set(tg) | imported
            c.count(repr((w.files, cmd)))
            c.cov("list-targets")
            if res.rc != 0 or got != want:
                c.violate("list-targets lists other targets than are declared", "want %r got %r\n%s" % (sorted(want), sorted(got), res.brief()), w.files, args=cmd)
            return
        if not tg:
            res = run_project(c, w.files, argv + common + ["-t", "nosuch"], cfg)
            c.count(repr((w.files, argv)))
            c.cov("missing target")
            if res.rc == 0 or crashed(res) or not res.err.strip():
                c.violate("a target that does not exist is not refused", res.brief(), w.files, args=argv + ["-t", "nosuch"])
            return
        t = r.choice(sorted(tg))
        n, u, d = tg[t]
        # the path must not be hidden by later inputs, or by what they import
        later = inputs[[x for _, x in inputs].index(u) + 1:]
        hid = set().union(*[({m} if m else x.names() | x.leaks()) for m, x in later] or [set()])
        if (n or d.name) in hid or any(t in {dd.target for y in x.all_units() if y is not x for dd in y.decls} for _, x in inputs):
            c.cov("skipped: target path hidden or imported too")
            return
        want = strip_fns(d.shown())
        if d.suppressed or isinstance(want, dict) and any(False for _ in ()):
            c.cov("skipped: suppressed target")
            return
        return judge(c, w, argv + common + ["-t", t], cfg, want, mode)
    if mode == "invisible":
        invisible(c, r, w, inputs, argv + common, cfg, outer_dict())


def judge(c, w, args, cfg, want, mode, stdin=b""):
    r = run_project(c, w.files, args, cfg, stdin)
    c.count(repr((sorted(w.files.items()), args)))
    c.cov("mode " + mode)
    c.cov("configuration " + cfg[0])
    got = jv(r)
    if r.rc == 0 and not same(got, want, True) and same(got, want, False):
        # JSON output sorts keys: order is judged by C21
        pass
    if r.rc != 0 or not same(got, want, False):
        c.violate("%s: %s" % (mode, "fails" if r.rc else "another result"),
                  "want %s\ngot  %s\n%s" % (json.dumps(want)[:1500], r.text[:1500], r.brief()),
                  dict(w.files, **({"stdin": stdin} if stdin else {})), args=cfg[1] + args, env=cfg[2])
    else:
        c.sample(json.dumps({"args": args, "files": w.files})[:900])


def invisible(c, r, w, inputs, args, cfg, visible):
    """Names that must not resolve."""
    bad = []
    for n, u in inputs:
        if u.data is not None:
            continue
        for d in u.decls:
            if d.internal and d.name not in visible:
                if n:
                    bad.append(("internal declaration, by name of its input", "%s.%s" % (n, d.name)))
                bad.append(("internal declaration", d.name))
            for im in d.scoped:
                if im[0]:
                    bad.append(("name of a scoped import", im[0]))
                else:
                    bad += [("scoped import", k) for k in im[1].public()]
        for im in u.imports:
            if im[0]:
                bad += [("contents of a named import", k) for k in im[1].public()]
        if n:
            bad += [("contents of a named input", k) for k in u.public()]
    known = set(visible) | set().union(*[u.leaks() for n, u in inputs if not n] or [set()])
    prelude = {"count", "last"}
    bad = [(why, t) for why, t in bad if t.split(".")[0] not in prelude and (("." in t and t.split(".")[0] in visible) or (t not in known))]
    if not bad:
        c.cov("skipped: nothing invisible")
        return
    why, t = r.choice(bad)
    a = args + ["-e", "[%s]" % t]
    res = run_project(c, w.files, a, cfg)
    c.count(repr((sorted(w.files.items()), a)))
    c.cov("invisible: " + why)
    if res.rc == 0 or res.timeout or crashed(res):
        c.violate("invisible name seen: " + why, "%s\n%s" % (t, res.brief()), w.files, args=cfg[1] + a, env=cfg[2])


def paths(c):
    """Where an import is looked for: beside the importing file first, then the library path, in order."""
    for i in range(c.scale(12, 60)):
        r = c.sub("paths", i)
        cfg = r.choice(CONFIGS)
        ids = {k: r.randrange(10 ** 6) for k in ("beside", "lib1", "lib2", "cwd")}
        have = {k for k in ids if r.random() < 0.6} or {"lib1"}
        where = {"beside": "proj/sub/x.eu", "lib1": "l1/x.eu", "lib2": "l2/x.eu", "cwd": "x.eu"}
        files = {where[k]: "v: %d\n" % ids[k] for k in have}
        files["proj/sub/m.eu"] = '{ import: "x.eu" }\nw: v\n'
        files["proj/top.eu"] = '{ import: "sub/m.eu" }\nq: w\n'
        order = r.sample(["l1", "l2"], 2)
        args = ["-L", order[0], "-L", order[1], r.choice(["proj/top.eu", "proj/sub/m.eu", "./proj/top.eu"]), "-j", "--suppress-type-warnings"]
        res = run_project(c, files, args, cfg)
        c.count(repr((files, args)))
        c.cov("library path")
        ok = []
        if "beside" in have:
            ok = [ids["beside"]]
        else:
            # (whether the working directory comes before or after -L is not settled)
            libs = [k for k in ("lib1", "lib2") if k in have]
            libs.sort(key=lambda k: order.index({"lib1": "l1", "lib2": "l2"}[k]))
            ok = [ids[libs[0]]] if libs else []
            if "cwd" in have:
                ok.append(ids["cwd"])
        got = jv(res)
        val = list(got.values())[0] if isinstance(got, dict) and len(got) == 1 else None
        if res.rc != 0 or val not in ok:
            c.violate("import resolved elsewhere", "candidates %r, allowed %r\n%s" % (ids, ok, res.brief()), files, args=args)


def git_imports(c):
    """A git import reads the named commit's file, and its relative imports from the same commit."""
    if not shutil.which("git"):
        c.assumptions.append("git not present: git imports not run")
        return
    for i in range(c.scale(4, 24)):
        r = c.sub("git", i)
        d = c.dir()
        try:
            repo = os.path.join(d, "origin")
            os.makedirs(os.path.join(repo, "lib"))
            env = dict(os.environ, HOME=d, GIT_CONFIG_NOSYSTEM="1", GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b", GIT_COMMITTER_NAME="a", GIT_COMMITTER_EMAIL="a@b")

            def git(*a):
                return subprocess.run(["git", "-C", repo] + list(a), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            git("init", "-q", ".")
            vals, shas = [], []
            for k in range(r.randint(2, 3)):
                v, h = r.randrange(10 ** 6), r.randrange(10 ** 6)
                open(os.path.join(repo, "lib", "a.eu"), "w").write('{ import: "h.eu" }\nv: %d\nw: h + 1\n' % v)
                open(os.path.join(repo, "lib", "h.eu"), "w").write("h: %d\n" % h)
                git("add", "-A")
                git("commit", "-qm", "c%d" % k)
                vals.append((v, h))
                shas.append(git("rev-parse", "HEAD").stdout.strip())
            if not all(shas):
                c.unsure("git does not work here")
                return
            pick = r.sample(range(len(shas)), 2)
            named = r.random() < 0.5
            spec = '{ git: "%s" commit: "%s" import: "%slib/a.eu" }'
            # a local file of the same name must not be used
            os.makedirs(os.path.join(d, "w", "lib"))
            open(os.path.join(d, "w", "h.eu"), "w").write("h: 5\n")
            open(os.path.join(d, "w", "lib", "h.eu"), "w").write("h: 6\n")
            if named:
                src = "{ import: [%s] }\nq: [p0.v, p0.w, p1.v, p1.w]\n" % ", ".join(spec % (repo, shas[k], "p%d=" % j) for j, k in enumerate(pick))
                want = [x for k in pick for x in (vals[k][0], vals[k][1] + 1)]
            else:
                src = "".join("` { import: %s }\nq%d: [v, w]\n" % (spec % (repo, shas[k], ""), j) for j, k in enumerate(pick))
                want = None
            open(os.path.join(d, "w", "m.eu"), "w").write(src)
            for again in (0, 1):
                if again:
                    # served from the cache: the origin is gone
                    os.rename(repo, repo + ".moved")
                res = c.run(["-j", "--suppress-type-warnings", "m.eu"], cwd=os.path.join(d, "w"), env={"EU_CACHE_HOME": os.path.join(d, "cache"), "HOME": d})
                c.count(src + str(again))
                c.cov("git import" + (" from the cache" if again else ""))
                exp = {"q": want} if named else {"q%d" % j: [vals[k][0], vals[k][1] + 1] for j, k in enumerate(pick)}
                if res.rc != 0 or jv(res) != exp:
                    c.violate("git import%s gives something else" % (" from the cache" if again else ""), "want %r\n%s" % (exp, res.brief()), {"m.eu": src})
        finally:
            shutil.rmtree(d, ignore_errors=True)


def lists(c):
    """Inputs that are lists, named; --collect-as of them."""
    for i in range(c.scale(8, 60)):
        r = c.sub("lists", i)
        rows = [{"a": "r%d" % r.randrange(1000), "b": "s%d" % r.randrange(1000)} for _ in range(r.randint(1, 5))]
        files = {"t.csv": "a,b\n" + "".join("%s,%s\n" % (x["a"], x["b"]) for x in rows),
                 "t.txt": "".join("line %s\n" % x["a"] for x in rows),
                 "t.jsonl": "".join(json.dumps(x) + "\n" for x in rows),
                 "t.json": json.dumps([x["a"] for x in rows])}
        want = {"t.csv": rows, "t.txt": ["line " + x["a"] for x in rows], "t.jsonl": rows, "t.json": [x["a"] for x in rows]}
        fs = r.sample(sorted(files), r.randint(1, 4))
        cfg = r.choice(CONFIGS)
        if r.random() < 0.5:
            args = ["-c", "all"] + (["-N"] if r.random() < 0.5 else []) + fs + ["-j", "-e", "all"]
            exp = {f: want[f] for f in fs} if "-N" in args else [want[f] for f in fs]
        else:
            args = ["i%d=%s" % (k, f) for k, f in enumerate(fs)] + ["-j", "-e", "[%s]" % ", ".join("i%d" % k for k in range(len(fs)))]
            exp = [want[f] for f in fs]
        args.append("--suppress-type-warnings")
        res = run_project(c, files, args, cfg)
        c.count(repr((files, args)))
        c.cov("list inputs")
        if res.rc != 0 or jv(res) != exp:
            c.violate("list inputs combine to something else", "want %s\n%s" % (json.dumps(exp)[:1500], res.brief()), files, args=cfg[1] + args)


FIXED_CASES = [
    # (what, files, args, expected JSON or None for a refusal, signature)
    ("main target rendered by default", {"m.eu": "a: 1\n` :main\nb: 2\n"}, ["m.eu"], 2),
    ("main target named in full", {"m.eu": "a: 1\n` { target: :main }\nb: 2\n"}, ["m.eu"], 2),
    ("an evaluand replaces main", {"m.eu": "a: 1\n` :main\nb: 2\n"}, ["m.eu", "-e", "[a]"], [1]),
    ("-t over main", {"m.eu": "` { target: :x }\na: 1\n` :main\nb: 2\n"}, ["m.eu", "-t", "x"], 1),
    ("target inside a block", {"m.eu": "a: { b: { ` { target: :x }\n c: { d: 4 } } }\n"}, ["m.eu", "-t", "x"], {"d": 4}),
    ("target of a named input", {"m.eu": "a: { ` { target: :x }\n c: 4 }\n"}, ["n=m.eu", "-t", "x"], 4),
    ("target of a named import", {"m.eu": '{ import: "n=k.eu" }\nz: 1\n', "k.eu": "` { target: :x }\nc: 4\n"}, ["m.eu", "-t", "x"], 4),
    ("same target twice", {"m.eu": "` { target: :x }\na: 1\n` { target: :x }\nb: 2\n"}, ["m.eu", "-t", "x"], 2),
    ("an empty unit", {"m.eu": ""}, ["m.eu"], {}),
    ("an empty unit after another", {"a.eu": "x: 1\n", "m.eu": "# nothing\n"}, ["a.eu", "m.eu"], {}),
    ("the same file twice", {"a.eu": "x: 1\n"}, ["a.eu", "n=a.eu", "-e", "[x, n.x]"], [1, 1]),
    ("a data key named import", {"d.json": '{"import": "nosuch.eu", "a": 1}'}, ["d.json"], {"import": "nosuch.eu", "a": 1}),
    ("an import that is missing", {"m.eu": '{ import: "nosuch.eu" }\na: 1\n'}, ["m.eu"], None),
    ("an input that is missing", {}, ["nosuch.eu"], None),
    ("an unknown format", {"m.zzz": "a"}, ["m.zzz"], None),
    ("a list input without a name", {"m.eu": "a: 1\n", "t.csv": "a\n1\n"}, ["t.csv", "m.eu"], {"a": 1}),
    ("the later -e", {"m.eu": "a: 1\nb: 2\n"}, ["m.eu", "-e", "a", "-e", "b"], 2),
    ("the same name in two directories", {"a.eu": '{ import: ["one/p.eu", "two/q.eu"] }\nr: [x, y]\n', "one/p.eu": '{ import: "h.eu" }\nx: h\n',
                                         "two/q.eu": '{ import: "h.eu" }\ny: h\n', "one/h.eu": "h: 1\n", "two/h.eu": "h: 2\n"}, ["a.eu"], {"r": [1, 2]}),
    ("a file of the same name as its importer", {"a.eu": '{ import: "one/a.eu" }\nr: x\n', "one/a.eu": "x: 1\n"}, ["a.eu"], {"r": 1}),
    ("the same name here and below", {"a.eu": '{ import: ["h.eu", "n=one/p.eu"] }\nr: [h, n.x]\n', "h.eu": "h: 3\n", "one/p.eu": '{ import: "h.eu" }\nx: h\n', "one/h.eu": "h: 1\n"},
     ["a.eu"], {"r": [3, 1]}),
    ("a file read in two formats", {"a.eu": '{ import: ["a=json@f.txt", "b=text@f.txt"] }\nr: [a.x, b]\n', "f.txt": '{"x": 1}\n'}, ["a.eu"], {"r": [1, ['{"x": 1}']]}),
    ("a file read as eu and as text", {"a.eu": '{ import: ["a=f.eu", "b=text@f.eu"] }\nr: [a.x, b]\n', "f.eu": 'x: 1\n'}, ["a.eu"], {"r": [1, ["x: 1"]]}),
    ("an import for an operator", {"a.eu": "` { import: \"k.eu\" precedence: :sum associates: :right }\n(a <+> b): a - b + k\nq: 3 <+> 2 * 2 <+> 1\n", "k.eu": "k: 5\n"}, ["a.eu"], {"q": 0}),
    ("an import for an internal declaration", {"a.eu": '` { import: "k.eu" export: :internal }\na: k\n', "b.eu": "c: a\n", "k.eu": "k: 5\n"}, ["a.eu", "b.eu"], None),
    ("an import with unit metadata for a suppressed declaration", {"a.eu": '` { import: "k.eu" export: :suppress }\na: k\nb: a + 1\n', "k.eu": "{ doc: \"k\" import: \"l.eu\" }\nk: l\n", "l.eu": "l: 5\n"},
     ["a.eu"], {"b": 6}),
    ("an import used in metadata", {"a.eu": '` { import: "k.eu" doc: j }\na: 1\nb: meta(a).doc\n', "k.eu": 'j: "w"\n'}, ["a.eu"], {"a": 1, "b": "w"}),
    ("imports in a circle", {"a.eu": '{ import: "b.eu" }\nx: 1\n', "b.eu": '{ import: "a.eu" }\ny: 2\n'}, ["a.eu"], None),
]


def fixed(c):
    for what, files, args, want in FIXED_CASES:
        for cfg in CONFIGS[:2]:
            res = run_project(c, files, args + ["-j", "--suppress-type-warnings"], cfg, timeout=30)
            c.count(repr((files, args, cfg[0])))
            c.cov("fixed case")
            ok = res.rc == 0 and same(jv(res), want, False) if want is not None else (res.rc not in (0,) and not crashed(res) and not res.timeout and bool(res.err.strip()))
            if not ok:
                c.violate("fixed case: " + what, "want %r\n%s" % (want, res.brief()), files, args=cfg[1] + args)


def known(c):
    """Cases of recorded findings; they run each time."""
    f = {"common.eu": "x: 1\n", "over.eu": '{ import: "common.eu" }\nx: 77\nl: x\n', "right.eu": '{ import: "common.eu" }\nr: x\n',
         "m.eu": '{ import: ["over.eu", "right.eu"] }\nq: r\n'}
    res = run_project(c, f, ["-j", "--suppress-type-warnings", "m.eu"], CONFIGS[0])
    if jv(res) != {"q": 1}:
        c.violate("an import already seen is left out and its name taken from another import", res.brief(), f,
                  signature="import-guard-shadow" if jv(res) == {"q": 77} else None)
    f = {"a.eu": "x: 4\ny: 8\n", "b.eu": "z: x + y\n"}
    res = run_project(c, f, ["-j", "--suppress-type-warnings", "-c", "inputs", "a.eu", "b.eu"], CONFIGS[0])
    if jv(res) != {"inputs": [{"x": 4, "y": 8}, {"z": 12}]}:
        c.violate("collected inputs do not see earlier ones", res.brief(), f,
                  signature="collect-no-scope" if res.rc != 0 and b"unresolved variable" in res.err else None)


def main():
    c = Ctx("C19", rule="a project of generated files (eu units and data documents importing one another, named, unnamed, scoped) or a fixed case, with one command line")
    fixed(c)
    known(c)
    paths(c)
    git_imports(c)
    lists(c)
    n = c.scale(500, 12000)
    k = 0
    while k < n and c.left(60, 780):
        c.pmap(lambda s: one(c, s), range(k, min(k + 64, n)))
        k += 64
    return c.finish(min_distinct=200)
