"""Shared machinery of the checks: running eu, counting what was observed,
verdicts, known findings, evidence."""
import atexit, hashlib, json, os, random, resource, shutil, subprocess, sys, threading, time, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EU = os.path.join(VERIF, "work", "bin", "eu")
NCPU = min(8, os.cpu_count() or 4)
MEM = 3 << 30


class Inconclusive(Exception):
    """The machinery could not decide (timeout, resource, harness error)."""


class Res:
    __slots__ = ("rc", "out", "err", "timeout", "wall")

    def __init__(self, rc, out, err, timeout, wall):
        self.rc, self.out, self.err, self.timeout, self.wall = rc, out, err, timeout, wall

    @property
    def text(self):
        return self.out.decode("utf-8", "replace")

    @property
    def errtext(self):
        return self.err.decode("utf-8", "replace")

    def brief(self):
        return "rc=%s timeout=%s\n--stdout--\n%s\n--stderr--\n%s" % (
            self.rc, self.timeout, self.text[-1500:], self.errtext[-2500:])


CRASH_MARKS = (b"panicked at", b"thread 'main' panicked", b"RUST_BACKTRACE",
               b"has overflowed its stack", b"AddressSanitizer", b"fatal runtime error",
               b"internal error", b"Internal error")


def crashed(r):
    """A crash is a signal death or a Rust panic, never an ordinary diagnostic."""
    if r.timeout:
        return False
    if r.rc < 0 or r.rc in (101, 134, 139):
        return True
    return any(m in r.err for m in CRASH_MARKS[:6])


class Ctx:
    def __init__(self, pid, level="exploration", rule=""):
        self.id = pid
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.level, self.rule = level, rule
        self.rng = random.Random("%s/%s/%s" % (pid, self.seed, self.tier))
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.cover = {}
        self.violations = []
        self.known = []
        self.inconclusive = 0
        self.assumptions = []
        self.lock = threading.RLock()
        self.out = os.path.join(VERIF, "out", pid)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out, exist_ok=True)
        self.scratch = os.path.join(VERIF, "work", "scratch", "%s-%d" % (pid, os.getpid()))
        os.makedirs(self.scratch, exist_ok=True)
        self._n = 0
        atexit.register(shutil.rmtree, self.scratch, True)
        self.findings = load_findings(pid)
        self.found_known = set()

    # -- budgets -----------------------------------------------------------
    @property
    def quick(self):
        return self.tier == "quick"

    def scale(self, q, t):
        return (min(q * 4, t) if t > q else q) if self.quick else t

    def elapsed(self):
        return time.time() - self.t0

    def left(self, q, t):
        """True while within the time budget for the tier (seconds)."""
        return self.elapsed() < (q if self.quick else t)

    def sub(self, *k):
        return random.Random("%s/%s/%s/%s" % (self.id, self.seed, self.tier, "/".join(map(str, k))))

    # -- counting ----------------------------------------------------------
    def count(self, key=None, nontrivial=True, n=1):
        with self.lock:
            self.evaluations += n
            if key is not None and nontrivial:
                if not isinstance(key, bytes):
                    key = (key if isinstance(key, str) else repr(key)).encode("utf-8", "surrogatepass")
                self.distinct.add(hashlib.blake2b(key, digest_size=8).digest())

    def sample(self, s, cap=12):
        with self.lock:
            if len(self.samples) < cap:
                self.samples.append(s if len(str(s)) < 2000 else str(s)[:2000])

    def cov(self, name, n=1):
        with self.lock:
            self.cover[name] = self.cover.get(name, 0) + n

    # -- scratch and running -------------------------------------------------
    def dir(self):
        with self.lock:
            self._n += 1
            d = os.path.join(self.scratch, "d%06d" % self._n)
        os.makedirs(d)
        return d

    def env(self, extra=None):
        e = {k: v for k, v in os.environ.items() if not k.startswith(("EU_", "VERIF_", "RUST"))}
        e["HOME"] = self.scratch
        e["EU_CACHE_HOME"] = os.path.join(self.scratch, "cache")
        e["LC_ALL"] = "C.UTF-8"
        e["TZ"] = "UTC"
        e["NO_COLOR"] = "1"
        if extra:
            e.update({k: str(v) for k, v in extra.items()})
        return e

    def run(self, args, cwd=None, stdin=b"", env=None, timeout=60, exe=None, stdout=None, preexec=None):
        t = time.time()
        if isinstance(stdin, str):
            stdin = stdin.encode()
        pre = preexec

        def preexec():
            # no single run may eat the machine: past this it is "no answer"
            resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
            if pre:
                pre()
        p = subprocess.Popen([exe or EU] + list(args), cwd=cwd or self.scratch,
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE if stdout is None else stdout,
                             stderr=subprocess.PIPE, env=self.env(env), start_new_session=True,
                             preexec_fn=preexec)
        try:
            o, e = p.communicate(stdin, timeout=timeout)
            if p.returncode == -6 and b"panicked" not in e and b"overflowed its stack" not in e and (
                    not e.strip() or b"memory allocation of" in e or b"out of memory" in e.lower()):
                return Res(-9, o or b"", e or b"", True, time.time() - t)
            return Res(p.returncode, o or b"", e or b"", False, time.time() - t)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            o, e = p.communicate()
            return Res(-9, o or b"", e or b"", True, time.time() - t)

    def eu_src(self, src, args=("-j",), files=None, **kw):
        """Run one source text as a file main.eu in a fresh directory."""
        d = self.dir()
        try:
            with open(os.path.join(d, "main.eu"), "w", encoding="utf-8", errors="surrogatepass", newline="") as f:
                f.write(src)
            for n, c in (files or {}).items():
                p = os.path.join(d, n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(c if isinstance(c, bytes) else c.encode("utf-8", "surrogatepass"))
            return self.run(list(args) + ["main.eu"], cwd=d, **kw)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def pmap(self, f, items, workers=None):
        items = list(items)
        with ThreadPoolExecutor(workers or NCPU) as ex:
            return list(ex.map(f, items))

    # -- verdicts ------------------------------------------------------------
    def violate(self, what, detail="", files=None, signature=None, args=None, env=None):
        """Record a violation (or a known finding when its signature is listed)."""
        sig = signature or what
        with self.lock:
            for k in self.findings:
                if k["signature"] == sig:
                    self.found_known.add(k["signature"])
                    return False
            n = len(self.violations)
            if n >= 25:
                return True
            d = os.path.join(self.out, "v%02d" % n)
            os.makedirs(d, exist_ok=True)
            for name, c in (files or {}).items():
                p = os.path.join(d, name)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(c if isinstance(c, bytes) else str(c).encode("utf-8", "surrogatepass"))
            with open(os.path.join(d, "REPORT.txt"), "w", encoding="utf-8", errors="backslashreplace") as f:
                f.write("property: %s\nseed: %s tier: %s\nsignature: %s\n\n%s\n\n%s\n" % (
                    self.id, self.seed, self.tier, sig, what, detail))
                if args is not None:
                    f.write("\ncommand: %s %s\n" % (EU, " ".join(map(repr, args))))
                if env:
                    f.write("env: %r\n" % (env,))
            self.violations.append((what, os.path.join(d, "REPORT.txt")))
            return True

    def unsure(self, why=""):
        with self.lock:
            self.inconclusive += 1
            if why and self.inconclusive <= 5:
                print("inconclusive: " + why[:400], file=sys.stderr)

    def finish(self, min_distinct=50, max_inconclusive=None):
        for k in self.findings:
            # a finding is printed when its own recorded case still fails
            if k["signature"] in self.found_known:
                print("KNOWN-FINDING: property=%s %s" % (self.id, k["what"]))
        ev = {
            "property": self.id, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": len(self.distinct),
                "rule": self.rule,
                "samples": self.samples or ["(none)"],
                "observed": self.cover,
                "inconclusive": self.inconclusive,
                "known_findings_seen": sorted(self.found_known),
            },
            "assumptions": self.assumptions,
            "wall_s": round(self.elapsed(), 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.id + ".json")
        with open(p + ".tmp", "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True, default=str)
        os.replace(p + ".tmp", p)
        print("%s %s seed=%d: evaluations=%d distinct=%d inconclusive=%d violations=%d wall=%.1fs %s" % (
            self.id, self.tier, self.seed, self.evaluations, len(self.distinct), self.inconclusive,
            len(self.violations), self.elapsed(), json.dumps(self.cover)[:1500]))
        if self.violations:
            for what, path in self.violations[:10]:
                print("  - %s" % what[:300].replace("\n", " | "))
            print("VIOLATION property=%s replay=%s" % (self.id, self.violations[0][1]))
            return 1
        lim = max_inconclusive if max_inconclusive is not None else max(5, self.evaluations // 10)
        if self.inconclusive > lim or len(self.distinct) < min_distinct:
            print("ERROR: inconclusive (%d) or too little observed (%d < %d)" % (
                self.inconclusive, len(self.distinct), min_distinct))
            return 2
        return 0


def load_findings(pid):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid]


# -- JSON with exact numbers ---------------------------------------------------
class Dup(Exception):
    pass


def _pairs(ps):
    d = {}
    for k, v in ps:
        if k in d:
            raise Dup(k)
        d[k] = v
    return d


def jload(b):
    """Strict JSON: duplicate keys refused, NaN/Infinity refused."""
    s = b.decode("utf-8") if isinstance(b, bytes) else b

    def bad(c):
        raise ValueError("constant " + c)
    return json.loads(s, object_pairs_hook=_pairs, parse_constant=bad)


def same(a, b, order=True):
    """Strict equality of JSON values: bool/int/float kept apart, key order counts."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        if order:
            if list(a.keys()) != list(b.keys()):
                return False
        elif set(a) != set(b):
            return False
        return all(same(a[k], b[k], order) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y, order) for x, y in zip(a, b))
    if isinstance(a, float):
        return a == b and (a != 0 or str(a)[0] == str(b)[0] or True)
    return a == b


CONFIGS = [
    ("blob", [], {}),
    ("source", ["--source-prelude"], {}),
    ("blob-bytes", [], {"EU_PREDECODE": "0"}),
    ("source-bytes", ["--source-prelude"], {"EU_PREDECODE": "0"}),
]
