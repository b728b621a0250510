"""Corpora of modelled programs (euv.prog) made by worker processes."""
import multiprocessing as mp, random
from . import prog


class P:
    __slots__ = ("src", "expected", "events", "whole", "dead", "cover", "fired", "key")

    def args(self):
        return [] if self.whole else ["-e", "main"]


def _work(job):
    key, n, kw = job

    def go():
        out = []
        for g in prog.programs(random.Random(key), n, **kw):
            p = P()
            p.src, p.expected, p.events, p.whole = g.src, g.expected, g.events, g.whole
            p.dead, p.cover = g.deadsites, dict(g.cover)
            p.fired = sum(1 for v in g.m.fired.values() if v)
            p.key = key
            out.append(p)
        return out
    return prog.with_stack(go)


def corpus(c, name, specs, chunk=25):
    """specs: [(number, kwargs)]; programs are yielded as their worker finishes, in a fixed order."""
    jobs = []
    for i, (n, kw) in enumerate(specs):
        for j in range(0, n, chunk):
            jobs.append(("%s/%s/%s/%s/%d/%d" % (c.id, name, c.seed, c.tier, i, j), min(chunk, n - j), kw))
    random.Random(c.seed).shuffle(jobs)
    with mp.get_context("fork").Pool(8) as pool:
        yield from pool.imap(_work, jobs)
