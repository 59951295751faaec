"""R08: the C++ loader class follows the documented model."""
from vk import hist
from vk.core import pmap, sha
from vk.rbuild import build_all, configs, history
from vk.tool import Tool

TECHNIQUE = "runtime monitoring: random and fault-injected histories over several loader objects through a loader shim, every step judged by a reference model of the class"
LEVEL_NOTE = "exploration: random declaration sets and build configurations x random histories of construction, load, symbol, free, query and destruction; wrapper message callback in R04/R05"


def check(c):
    c.rule = "one case = one history over up to 5 live loader objects; judged operations, loader events and distinct states are counted; non-trivial: at least one library was opened"
    c.assumptions = ["symbols with non-null addresses", "single-threaded use", "flags() of an object that never tried to load may be zero (as documented) or the given flags"]
    tool = Tool(c)
    r = c.rng
    builds = build_all(c, tool, r, configs(r, "c++", n=c.n(19, 38)), driver="drv_cxx.cpp")
    jobs = []
    for b in builds:
        for i in range(c.n(50, 500)):
            n = r.choice([5, 15, 30, 60, 120])
            jobs.append((b, hist.gen_cxx(r, b["syms"], b["libs"], n, faults=r.random() < 0.8, errs=0.25, paths=0.05, longerr=False, nobj=r.choice([1, 2, 5]))))
    states, opens = set(), 0

    def one(j):
        b, script = j
        return b, script, history(c, b, script, ("state", "crash", "error"), hist.CxxModel)

    for b, script, res in pmap(one, jobs):
        if res is None:
            continue
        m, steps, _, _ = res
        states |= {(b["k"],) + s for s in m.states}
        opens += m.ld.opens
        c.case(sha(repr(script) + str(b["k"])), nontrivial=m.ld.opens > 0)
    c.extra["distinct_states"] = len(states)
    c.extra["library_opens"] = opens
    c.extra["configurations"] = len(builds)
    c.sample({"script": jobs[0][1][:20], "config": repr(jobs[0][0]["cfg"])})
