"""Batched value oracle: many independent (expression, expected value) cases in
one unit, bisected when the unit as a whole fails."""
from .core import *


class Pred:
    """Expected outcome given by a predicate on the JSON value."""

    def __init__(self, fn, desc):
        self.fn, self.desc = fn, desc

    def __repr__(self):
        return "Pred(%s)" % self.desc


class Case:
    __slots__ = ("expr", "want", "key", "kind", "pre")

    def __init__(self, expr, want, kind="", key=None, pre=""):
        self.expr, self.want, self.kind, self.key, self.pre = expr, want, kind, key or expr, pre


class Err:
    """Expected outcome: a clean failure. `any_of`: substrings, one of which the
    diagnostic should hold (optional); `all_of`: substrings all of which it should hold."""
    all_of = ()

    def __init__(self, *any_of):
        self.any_of = any_of

    def __repr__(self):
        return "Err%r" % (self.any_of,)


def unit_text(cases, header=""):
    pre = []
    for c in cases:
        if c.pre and c.pre not in pre:
            pre.append(c.pre)
    return header + "\n".join(pre) + "\n" + "\n".join("c%d: %s" % (i, c.expr) for i, c in enumerate(cases)) + "\n"


def run_cases(ctx, cases, header="", args=(), env=None, per=40, timeout=120, files=None, configs=None,
              order=True, cmp=None, err_timeout=30, sig=None):
    """Evaluate all cases; compare; report violations through ctx."""
    good = [c for c in cases if not isinstance(c.want, Err)]
    bad = [c for c in cases if isinstance(c.want, Err)]
    configs = configs or CONFIGS
    groups = [good[i:i + per] for i in range(0, len(good), per)]
    cmp0 = cmp or (lambda got, want: same(got, want, order))

    def cmp(got, want):
        if isinstance(want, Pred):
            try:
                return bool(want.fn(got))
            except Exception:
                return False
        return cmp0(got, want)

    def report(c, why, src, cfg, r):
        ctx.violate("%s: `%s` %s" % (c.kind, c.expr[:300], why),
                    "config %s\nexpected: %r\n%s" % (cfg[0], c.want, r.brief() if r else ""),
                    files={"main.eu": src}, signature=(sig(c) if sig else None),
                    args=list(cfg[1]) + ["-j", "main.eu"], env=cfg[2])

    def go(group, cfg):
        if len(ctx.violations) >= 25:
            return
        src = unit_text(group, header)
        r = ctx.eu_src(src, ["-j", "--suppress-type-warnings"] + list(cfg[1]) + list(args), files=files,
                       env=dict(cfg[2], **(env or {})), timeout=timeout)
        if r.timeout:
            if len(group) > 1:
                m = len(group) // 2
                go(group[:m], cfg)
                go(group[m:], cfg)
                return
            ctx.unsure("timeout: " + group[0].expr)
            return
        got = None
        if r.rc == 0:
            try:
                got = jload(r.out)
            except Exception as e:
                got = None
                bad_json = e
        if got is None or not isinstance(got, dict):
            if len(group) > 1:
                m = len(group) // 2
                go(group[:m], cfg)
                go(group[m:], cfg)
                return
            c = group[0]
            ctx.count(c.key)
            report(c, "failed (rc %s%s) where a value is defined: %s" % (
                r.rc, "" if r.rc else ", unreadable output", " ".join(r.errtext.split())[:200]), src, cfg, r)
            return
        for i, c in enumerate(group):
            ctx.count(c.key)
            ctx.cov(c.kind)
            k = "c%d" % i
            if k not in got:
                if not (c.want is MISSING):
                    report(c, "was not rendered", unit_text([c], header), cfg, r)
                continue
            if not cmp(got[k], c.want):
                report(c, "gave %s, expected %s" % (json.dumps(got[k], ensure_ascii=False)[:200],
                                                    (repr(c.want) if isinstance(c.want, Pred) else json.dumps(c.want, ensure_ascii=False))[:200]),
                       unit_text([c], header), cfg, r)

    def go_err(ic):
        i, c = ic
        cfg = configs[i % len(configs)]
        src = unit_text([c], header)
        r = ctx.eu_src(src, ["-j", "--suppress-type-warnings"] + list(cfg[1]) + list(args), files=files,
                       env=dict(cfg[2], **(env or {})), timeout=err_timeout)
        if r.timeout:
            ctx.unsure("timeout: " + c.expr)
            return
        ctx.count(c.key)
        ctx.cov(c.kind)
        if crashed(r):
            report(c, "crashed", src, cfg, r)
        elif r.rc == 0:
            report(c, "succeeded with %s where it must fail" % r.text[:200], src, cfg, r)
        elif not r.err.strip():
            report(c, "failed without a diagnostic", src, cfg, r)
        elif not all(" ".join(a.split()) in " ".join(r.errtext.split()) for a in c.want.all_of):
            report(c, "failed without reporting all of %r: %s" % (c.want.all_of, " ".join(r.errtext.split())[:600]), src, cfg, r)
        elif c.want.any_of and not any(a in r.errtext for a in c.want.any_of):
            report(c, "failed with another diagnostic than %r: %s" % (c.want.any_of, " ".join(r.errtext.split())[:300]), src, cfg, r)

    for c in cases[:4]:
        ctx.sample("%s  =>  %r" % (c.expr, c.want))
    ctx.pmap(lambda ig: go(ig[1], configs[ig[0] % len(configs)]), enumerate(groups))
    ctx.pmap(go_err, enumerate(bad))


class _Missing:
    def __repr__(self):
        return "MISSING"


MISSING = _Missing()
