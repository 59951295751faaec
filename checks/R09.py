"""R09: minimal headers load all or nothing."""
from vk import hist
from vk.core import pmap, sha
from vk.rbuild import build_all, history, min_configs
from vk.tool import Tool

TECHNIQUE = "runtime monitoring: random and fault-injected load/free histories of the minimal C and C++ outputs through a loader shim, every step judged by a reference model"
LEVEL_NOTE = "exploration: random declaration sets and build configurations x random histories with open, symbol and close failures; every symbol of the sets fails in some history"


def check(c):
    c.rule = "one case = one history; judged operations, loader events and distinct states are counted; non-trivial: at least one library was opened"
    c.assumptions = ["symbols with non-null addresses", "single-threaded use"]
    tool = Tool(c)
    r = c.rng
    jobs = []
    for n, (fmt, drv, model) in enumerate((("minimal", "drv_min.c", hist.MinModel), ("minimal-c++", "drv_mincxx.cpp", hist.MinCxxModel))):
        builds = build_all(c, tool, r, min_configs(r, fmt, c.n(12, 36)), ks=[100 * n + k for k in range(c.n(12, 36))], driver=drv)
        for b in builds:
            for i in range(c.n(40, 400)):
                jobs.append((b, hist.gen_min(r, b["syms"], b["libs"], r.choice([3, 10, 30, 60]), faults=r.random() < 0.8), model))
            # every single symbol missing, then everything available again
            a = b["libs"]["A"].path
            for s in b["syms"]:
                jobs.append((b, ["load " + hist.uphex(a), "fault sym " + s, "load " + hist.uphex(a), "free", "load " + hist.uphex(b["libs"]["B"].path), "faultclear", "load " + hist.uphex(b["libs"]["B"].path), "load " + hist.uphex(a)], model))
    states, opens = set(), 0

    def one(j):
        b, script, model = j
        return j, history(c, b, script, ("state", "crash", "handles"), model)

    for (b, script, _), res in pmap(one, jobs):
        if res is None:
            continue
        m, steps, _, _ = res
        states |= {(b["k"],) + s for s in m.states}
        opens += m.ld.opens
        c.case(sha(repr(script) + str(b["k"])), nontrivial=m.ld.opens > 0)
    c.extra["distinct_states"] = len(states)
    c.extra["library_opens"] = opens
    c.sample({"script": jobs[0][1][:20], "config": repr(jobs[0][0]["cfg"])})
