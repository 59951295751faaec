"""R12: the generated code is free of memory errors, undefined behaviour and leaks."""
from vk import hist
from vk.core import pmap, sha
from vk.rbuild import build_all, configs, history, min_configs
from vk.tool import Tool
from checks import R07, R10

TECHNIQUE = "sanitizers: AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer (gcc and clang), MemorySanitizer (C formats) and valgrind memcheck over fault-injected histories with hostile arguments, in all formats"
LEVEL_NOTE = "exploration: null, empty, over-long and unknown names, out-of-range numbers, loader messages up to 60000 bytes, every loader call failing; wrappers and autoloading under the same sanitizers in R03-R05"
VALGRIND = ["valgrind", "-q", "--error-exitcode=99", "--leak-check=full", "--show-leak-kinds=definite", "--errors-for-leak-kinds=definite"]


def check(c):
    R10.check(c, want=("crash", "leak"), sans=("asan",), nb=c.n(8, 12))
    c.rule = "one case = one history run under one sanitizer; non-trivial: at least one library was opened"
    c.assumptions = ["undefined behaviour: what UBSan, ASAN, LSan, MSan and memcheck observe", "single-threaded use", "the caller frees nothing the interface owns, passes null only where a string is documented to be checked, and destroys every argument after the call"]
    tool = Tool(c)
    r = c.rng
    jobs = []
    kinds = [("c", "drv_c.c", hist.CModel, "asan", 10), ("c", "drv_c.c", hist.CModel, "msan", 4), ("c", "drv_c.c", hist.CModel, "plain", 2), ("c++", "drv_cxx.cpp", hist.CxxModel, "asan", 10), ("c++", "drv_cxx.cpp", hist.CxxModel, "plain", 3),
             ("minimal", "drv_min.c", hist.MinModel, "asan", 5), ("minimal", "drv_min.c", hist.MinModel, "msan", 2), ("minimal-c++", "drv_mincxx.cpp", hist.MinCxxModel, "asan", 5), ("minimal-c++", "drv_mincxx.cpp", hist.MinCxxModel, "plain", 1)]
    for n, (fmt, drv, model, san, nb) in enumerate(kinds):
        cfgs = (min_configs if "min" in fmt else configs)(r, fmt, n=c.n(nb, 3 * nb), san=san, skip=r.randrange(22))
        for cfg in cfgs:
            if san == "msan":
                cfg.cc, cfg.lang = "clang", None
                if cfg.std and "++" in cfg.std:
                    cfg.std = None
            elif san == "asan" and r.random() < 0.4:
                cfg.cc = "clang" if cfg.cc == "gcc" else "gcc"
                if cfg.std == "c++23":
                    cfg.std = "c++20"
        builds = build_all(c, tool, r, cfgs, ks=[1000 * (n + 1) + r.randrange(11) + 11 * k for k in range(len(cfgs))], driver=drv)
        for b in builds:
            vg = san == "plain"
            for i in range(c.n(4 if vg else 15, 40 if vg else 150)):
                ln = r.choice([10, 25, 60])
                if fmt == "c":
                    sc = hist.gen_c(r, b["syms"], b["libs"], ln, errs=0.6, paths=0.2, pathfaults=True, ns=0 if vg else 0.02)
                    if r.random() < 0.3:
                        sc = sc[:r.randrange(len(sc) + 1)] + ["exit 0"]
                elif fmt == "c++":
                    sc = hist.gen_cxx(r, b["syms"], b["libs"], ln, errs=0.6, paths=0.2, pathfaults=True, ns=0 if vg else 0.02)
                else:
                    sc = hist.gen_min(r, b["syms"], b["libs"], ln)
                jobs.append((b, sc, model, VALGRIND if vg else ()))

    # path queries for relative, linked and searched names, every way of finding the path
    fakes = R07.fakes(c)
    for n, (fmt, model, san) in enumerate((("c", R07.PathC, "asan"), ("c", R07.PathC, "msan"), ("c", R07.PathC, "plain"), ("c++", R07.PathCxx, "asan"), ("c++", R07.PathCxx, "plain"))):
        cfgs = configs(r, fmt, n=c.n(4 if san == "asan" else 2, 12), san=san, skip=r.randrange(22))
        for i, cfg in enumerate(cfgs):
            # valgrind doesn't know what the request writes
            cfg.inc = (None, fakes[1])[i % 2] if san == "plain" else (None, fakes[0], None, fakes[1])[i % 4]
            if san == "msan":
                cfg.cc, cfg.lang = "clang", None
                if cfg.std and "++" in cfg.std:
                    cfg.std = None
        builds = build_all(c, tool, r, cfgs, ks=[50000 + 1000 * n + r.randrange(11) + 11 * k for k in range(len(cfgs))], driver="drv_c.c" if fmt == "c" else "drv_cxx.cpp")
        for b in builds:
            w, files, dirs = R07.tree(c, b, str(b["k"]))
            if san == "msan":
                files = [f for f in files if "pre" not in f]     # its dlopen() wrapper takes l_addr for the start of the file
            vg = san == "plain"
            for i in range(c.n(4 if vg else 20, 30 if vg else 150)):
                sc = R07.script(r, b, w, files, dirs, r.choice([10, 30, 60]), fmt == "c++", ns=not vg, maps=True)
                jobs.append((b, sc, model, VALGRIND if vg else ()))

    def one(j):
        b, script, model, pre = j
        return j, history(c, b, script, ("crash", "memory", "leak"), model, pre=pre)

    for (b, script, _, pre), res in pmap(one, jobs):
        if res is None:
            continue
        m, steps, rr, files = res
        c.count("path_queries", sum(s.cmd == "path" for s in steps))
        c.count("process_map_fallbacks", sum(e[0] == "mapsfault" for s in steps for e in s.ev))
        c.count("histories_%s_%s" % ("valgrind" if pre else b["cfg"].san, b["cfg"].cc))
        c.case(sha(repr(script) + str(b["k"])), nontrivial=m.ld.opens > 0)
    c.sample({"script": jobs[0][1][:20], "config": repr(jobs[0][0]["cfg"])})
