"""C01: programs evaluate to what the language reference says (own call-by-need interpreter as the oracle)."""
from ..batch import *
from ..core import *
from ..progs import corpus
from ..forms import cases as form_cases

VARIANTS = CONFIGS + [("no-dce", ["--no-dce"], {}), ("no-demand", ["--suppress-demand-analysis"], {})]


def judge(c, p, i):
    name, args, env = VARIANTS[i % len(VARIANTS)]
    a = ["-j", "--suppress-type-warnings"] + args + p.args()
    r = c.eu_src(p.src, a, env=env, timeout=60)
    c.count(p.src)
    c.cov("config " + name)
    for k, n in p.cover.items():
        c.cov(k, n)
    if r.timeout:
        r = c.eu_src(p.src, a, env=env, timeout=120)
        if r.timeout:
            return c.violate("no answer from a program that ends", "expected %s\n%s" % (json.dumps(p.expected), r.brief()), {"main.eu": p.src}, args=a, env=env)
    if r.rc != 0:
        return c.violate("a program with a value fails", "expected %s\n%s" % (json.dumps(p.expected), r.brief()), {"main.eu": p.src}, args=a, env=env)
    try:
        got = jload(r.out)
    except ValueError as e:
        return c.violate("output is not JSON", "%s\n%s" % (e, r.brief()), {"main.eu": p.src}, args=a, env=env)
    if not same(got, p.expected, False):
        c.violate("a program evaluates to something else", "expected %s\ngot %s" % (json.dumps(p.expected), json.dumps(got)), {"main.eu": p.src}, args=a, env=env)


def main():
    c = Ctx("C01", rule="distinct generated programs whose value the model gives, each run under one of six engine configurations")
    c.assumptions += ["programs are drawn from the fragment euv/prog.py models: integers below 2^53, strings, booleans, lists, blocks, functions"]
    form_cases(c)
    specs = []
    for _ in range(1 if c.quick else 6):
        specs += [(1200, dict(sites=False, depth=4, budget=25)), (1000, dict(sites=False, depth=5, budget=60)),
                  (500, dict(sites=False, depth=6)), (150, dict(sites=False, depth=8, budget=400))]
    k = 0
    for ps in corpus(c, "main", specs):
        c.pmap(lambda ip: judge(c, ip[1], ip[0] + k), enumerate(ps))
        k += 1 + len(ps)
        if ps:
            c.sample(ps[0].src)
        if not c.left(150, 780) or len(c.violations) >= 20:
            break
    return c.finish(500)
