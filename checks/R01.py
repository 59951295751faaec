"""R01: the C interface follows the documented state machine."""
from vk import hist
from vk.core import pmap, sha
from vk.rbuild import build_all, configs, history
from vk.tool import Tool

TECHNIQUE = "runtime monitoring: random and fault-injected histories of the generated C interface through a loader shim, every step judged online by a reference state machine"
LEVEL_NOTE = "exploration: random declaration sets and build configurations x random operation histories with injected open/symbol/close failures; state after every call compared with the model"


def check(c):
    c.rule = ("one case = one history; judged operations, loader events and distinct (loaded, loaded-symbol-set) states are counted; non-trivial: at least one library was opened")
    c.assumptions = ["symbols with non-null addresses", "the loader is observed and faulted at the dlopen/dlmopen/dlsym/dlclose call boundary", "single-threaded use"]
    tool = Tool(c)
    r = c.rng
    builds = build_all(c, tool, r, configs(r, n=c.n(22, 66)))
    jobs = []
    for b in builds:
        for i in range(c.n(60, 600)):
            n = r.choice([5, 15, 30, 60, 120])
            jobs.append((b, hist.gen_c(r, b["syms"], b["libs"], n, faults=r.random() < 0.8, errs=0.05, paths=0.03, longerr=False)))
    states, opens = set(), 0

    def one(j):
        b, script = j
        return b, script, history(c, b, script, ("state", "crash"))

    for b, script, res in pmap(one, jobs):
        if res is None:
            continue
        m, steps, _, _ = res
        states |= {(b["k"],) + s for s in m.states}
        opens += m.ld.opens
        c.case(sha(repr(script) + str(b["k"])), nontrivial=m.ld.opens > 0)
    c.extra["distinct_states"] = len(states)
    c.extra["library_opens"] = opens
    c.extra["configurations"] = len(builds)
    c.sample({"script": jobs[0][1][:20], "config": repr(jobs[0][0]["cfg"])})
