"""R06: the error text always describes the last operation, and fits."""
from vk import hist
from vk.core import pmap, sha
from vk.rbuild import build_all, configs, history
from vk.tool import Tool

TECHNIQUE = "runtime monitoring: fault-injected histories (numbered loader messages, lengths around the buffer size) through a loader shim; the reported text compared after the operations with the model's expectation; ASAN/UBSan builds"
LEVEL_NOTE = "exploration: random histories of the C and C++ interfaces with faults in every loader call and loader messages, names and paths up to 60000 bytes; the text is read after nearly every operation"


def check(c):
    c.rule = "one case = one history; error texts read and compared are counted, and the distinct (operation, outcome, kind of text) combinations seen; non-trivial: at least one failure text was compared"
    c.assumptions = ["texts are those documented in the code base or exactly the loader's message, cut to the buffer (C)", "symbols with non-null addresses", "injected messages carry a serial number, so a stale one is recognised"]
    tool = Tool(c)
    r = c.rng
    jobs, kinds = [], set()
    seeds = [(f, s) for f in ("c", "c++") for s in ("plain", "asan")]
    for n, (fmt, san) in enumerate(seeds):
        cfgs = configs(r, fmt, n=c.n(5, 19), san=san, skip=r.randrange(19))
        builds = build_all(c, tool, r, cfgs, ks=[1000 * n + r.randrange(11) + 11 * k for k in range(len(cfgs))], driver="drv_c.c" if fmt == "c" else "drv_cxx.cpp")
        g, model = (hist.gen_c, hist.CModel) if fmt == "c" else (hist.gen_cxx, hist.CxxModel)
        for b in builds:
            for i in range(c.n(60 if san == "plain" else 20, 500)):
                jobs.append((b, g(r, b["syms"], b["libs"], r.choice([10, 30, 60]), errs=0.9, paths=0.25, pathfaults=True, ns=0.02), model))

    def one(j):
        b, script, model = j
        return j, history(c, b, script, ("error", "crash"), model)

    texts = 0
    for (b, script, model), res in pmap(one, jobs):
        if res is None:
            continue
        m, steps, _, _ = res
        prev, failing = None, 0
        for st in steps:
            if st.cmd == "err" and st.text is not None:
                texts += 1
                failing += st.text != b"no error"
                kinds.add((b["cfg"].fmt, prev and prev.cmd, prev and prev.ret, st.text[:12], min(len(st.text) // 1000, 9)))
            else:
                prev = st
        c.case(sha(repr(script) + str(b["k"])), nontrivial=failing > 0)
    c.extra["error_texts_compared"] = texts
    c.extra["distinct_operation_outcome_text_kinds"] = len(kinds)
    c.sample({"script": jobs[0][1][:20], "config": repr(jobs[0][0]["cfg"])})
