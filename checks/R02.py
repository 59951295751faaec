"""R02: every handle is closed exactly once and never used afterwards."""
from vk import hist
from vk.core import pmap, sha
from vk.rbuild import build_all, configs, history, min_configs
from vk.tool import Tool
from checks import R10

TECHNIQUE = "runtime monitoring: an online monitor of the loader calls (every handle unique, ownership tracked) over random and fault-injected histories of all four formats, ending by return, exit(), automatic release and destruction"
LEVEL_NOTE = "exploration: histories with many loads, frees, forced frees and failing opens/symbols/closes; the monitor checks for every loader call that its handle is open, and after every operation and at process end that no handle is open and unreachable"


def check(c):
    c.rule = "one case = one history; loader events are counted; non-trivial: at least one library was opened"
    c.assumptions = ["the loader is observed at the call boundary; the shim gives each open a handle of its own that is never reused, so use after close is seen even when the real loader would return the same handle", "a forced free whose close fails may lose the handle (as the property allows)", "single-threaded use"]
    R10.check(c, want=("handles", "crash"), sans=("plain",), nb=c.n(5, 12))
    c.rule = "one case = one history (the counts include plugin histories); loader events are counted; non-trivial: at least one library was opened"
    tool = Tool(c)
    r = c.rng
    jobs = []
    for n, (fmt, drv, model, nb) in enumerate((("c", "drv_c.c", hist.CModel, 14), ("c++", "drv_cxx.cpp", hist.CxxModel, 12), ("minimal", "drv_min.c", hist.MinModel, 6), ("minimal-c++", "drv_mincxx.cpp", hist.MinCxxModel, 6))):
        cfgs = (min_configs if "min" in fmt else configs)(r, fmt, n=c.n(nb, 3 * nb), skip=r.randrange(22))
        builds = build_all(c, tool, r, cfgs, ks=[100 * (n + 1) + k for k in range(len(cfgs))], driver=drv)
        for b in builds:
            for i in range(c.n(60, 600)):
                ln = r.choice([4, 10, 25, 60, 150])
                if fmt == "c":
                    sc = hist.gen_c(r, b["syms"], b["libs"], ln, faults=r.random() < 0.85, errs=0.02, paths=0.03, longerr=False, force=r.choice([0, 1, 3]), autorel=r.choice([0, 1, 3]))
                    if r.random() < 0.5:
                        sc.insert(r.randrange(len(sc) + 1), "autorel")
                    if r.random() < 0.4:
                        # ended by exit() in any state
                        sc = sc[:r.randrange(len(sc) + 1)] + ["exit 0"]
                elif fmt == "c++":
                    sc = hist.gen_cxx(r, b["syms"], b["libs"], ln, faults=r.random() < 0.85, errs=0.02, paths=0.03, longerr=False, nobj=r.choice([1, 2, 5, 8]))
                else:
                    sc = hist.gen_min(r, b["syms"], b["libs"], ln, faults=r.random() < 0.85)
                jobs.append((b, sc, model))
    opens = closes = 0

    def one(j):
        b, script, model = j
        return j, history(c, b, script, ("handles", "crash"), model)

    for (b, script, _), res in pmap(one, jobs):
        if res is None:
            continue
        m = res[0]
        opens += m.ld.opens
        closes += m.ld.closes
        c.case(sha(repr(script) + str(b["k"])), nontrivial=m.ld.opens > 0)
    c.extra["library_opens"] = opens
    c.extra["library_closes"] = closes
    c.sample({"script": jobs[0][1][:20], "config": repr(jobs[0][0]["cfg"])})
