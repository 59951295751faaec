"""R04: wrapper functions forward calls exactly and refuse to call what is not loaded."""
import random
from vk import prog
from vk.core import HarnessError, pmap, sha
from vk.gen import Config
from vk.tool import Tool
from vk.wrapprog import WrapProgram

TECHNIQUE = "runtime monitoring: histories of loads, frees and wrapped calls; an offline checker compares, per call, the log of hooks and of the library itself with that of a directly linked program, and the way refused calls end (message, callback, abort, no call, no loader activity)"
LEVEL_NOTE = "exploration: random signatures and values, all states of the library and its symbols, hooks on random subsets, C/C++ x compilers x linkage x prefix, loader faults, sanitizer builds"
W = "GDO_WRAP_FUNCTIONS"
VARIANTS = [
    dict(fmt="c", defs=[W], olevel="-O2"), dict(fmt="c", defs=[W], olevel="-O0"), dict(fmt="c", defs=[W], cc="clang", std="c99"), dict(fmt="c", defs=[W], separate=True, olevel="-O2"), dict(fmt="c", defs=[W, "GDO_STATIC"], param="read"),
    dict(fmt="c", defs=[W, "GDO_WRAP_VISIBILITY="], olevel="-O2"), dict(fmt="c", defs=[W], lang="c++"), dict(fmt="c", defs=[W], prefix="My_Lib", separate=True, cc="clang"), dict(fmt="c", defs=[W], olevel="-O2", san="asan"), dict(fmt="c", defs=[W], cc="clang", san="asan", param="read"),
    dict(fmt="c++", defs=[W]), dict(fmt="c++", defs=[W], separate=True, cc="clang", std="c++20"), dict(fmt="c++", defs=[W], param="read", std="c++11"), dict(fmt="c++", defs=[W, "GDO_WRAP_VISIBILITY="]), dict(fmt="c++", defs=[W], prefix="zQ", san="asan"), dict(fmt="c++", defs=[W], separate=True, san="asan"),
]


def history(r, p, cl):
    ops = []
    nsyms = len(p.syms)
    exp = None
    for _ in range(r.randint(2, 12)):
        x = r.random()
        if x < 0.22:
            ops.append("L=" + p.libs[r.choice("AAABMZN")])
        elif x < 0.27:
            ops.append("D")
        elif x < 0.31:
            ops.append("E")
        elif x < 0.47:
            ops.append("A")
        elif x < 0.56:
            ops.append("S=%d" % r.randrange(nsyms))
        elif x < 0.6:
            ops.append("N=" + r.choice(p.syms).name)
        elif x < 0.65:
            ops.append(r.choice("FX"))
        elif x < 0.69 and cl.cxx:
            ops.append("V")
        elif x < 0.76 and cl.cxx:
            ops.append("B=%d" % r.randrange(3))
        elif x < 0.80:
            ops.append(r.choice(["fault open 1", "fault close 1", "fault sym " + r.choice(p.syms).name, "faultclear"]))
        else:
            ops.append("C=%d" % r.choice(p.fn))
    if r.random() < 0.5:
        ops[:0] = ["L=" + p.libs[r.choice("AB")], "A"]
    ops += ["C=%d" % r.choice(p.fn)] * r.randint(0, 2)
    if r.random() < 0.3:
        ops.append(r.choice(["Q", "Q=0", "Q=7"]))
    return ops


def basic(r, p, cl):
    """every function: when loaded, and refused in each state"""
    H = [["L=" + p.libs["A"], "A"] + ["C=%d" % k for k in p.fn]]
    for k in p.fn:
        H.append(r.choice([["C=%d" % k], ["L=" + p.libs["B"], "C=%d" % k], ["L=" + p.libs["A"], "A", "F", "C=%d" % k], ["L=" + p.libs["B"], "A", "X", "C=%d" % k], ["L=" + p.libs["M"], "A", "C=%d" % k],
                           ["L=" + p.libs["A"], "S=%d" % k, "C=%d" % k, "C=%d" % r.choice(p.fn)], ["L=" + p.libs["A"], "fault sym " + p.syms[k].name, "A", "C=%d" % k]]))
    if cl.cxx:
        for k in p.fn:
            H.append(r.choice([["B=1", "C=%d" % k], ["B=2", "L=" + p.libs["B"], "B=1", "C=%d" % k], ["B=1", "B=0", "C=%d" % k], ["L=" + p.libs["A"], "B=2", "A", "C=%d" % k, "V", "C=%d" % k]]))
    return H


def drive(c, variants, history, basic, np, per, nh, base=0):
    tool = Tool(c)
    r = c.rng
    seeds = [r.getrandbits(64) for _ in range(np)]

    def mk(k):
        rr = random.Random(seeds[k])
        return WrapProgram(c, rr, base + k, prog.symbols(rr))
    progs = pmap(mk, range(np))
    off = r.randrange(len(variants))
    jobs = []
    for p in progs:
        for j in range(per):
            jobs.append((p, Config(**variants[(off + (p.k - base) * per + j) % len(variants)]), "v%d" % j, r.getrandbits(64)))

    def build(job):
        p, cfg, tag, seed = job
        try:
            return p.build(tool, cfg, tag, random.Random(seed))
        except HarnessError as e:
            return e
    # logging functions of hooks advance the program's value stream: one program at a time
    byprog = [[j for j in jobs if j[0] is p] for p in progs]
    built = [x for xs in pmap(lambda js: [build(j) for j in js], byprog) for x in xs]
    bad = [x for x in built if isinstance(x, HarnessError)]
    for x in bad:
        c.count("builds_set_aside")
        c.extra.setdefault("builds_set_aside_why", []).append(str(x)[:1500])
    if len(bad) * 2 > len(built):
        raise bad[0]
    work = []
    for cl in built:
        if isinstance(cl, HarnessError):
            continue
        hs = basic(r, cl.p, cl) + [history(r, cl.p, cl) for _ in range(nh)]
        for h in hs:
            d = "A"
            if isinstance(h, tuple):
                h, d = h
            work.append((cl, h, d))

    def one(x):
        cl, h, d = x
        return cl.run(h, d)

    distinct = set()
    for (cl, h, d), (rr, log) in zip(work, pmap(one, work)):
        if rr.timeout:
            c.inconcl("timeout")
            continue
        c.case(sha("%r %s %s %d" % (cl.cfg, h, d, cl.p.k)), nontrivial=any(o[0] == "C" for o in h))
        c.count("log_lines", log.count("\n"))

        def report(aspect, text):
            files = {"prog.txt": open(cl.src).read(), "lib.c": open(cl.p.w + "/lib.c").read(), "input.txt": cl.p.inputs, "config.txt": repr(cl.cfg), "log.txt": log, "err.txt": rr.err, "ops.txt": "%s\ndefault library: %s\n%s" % (h, d, cl.p.missing)}
            import re
            c.violation("%s:%s:%s" % (cl.cfg.fmt, aspect, re.sub(r"\d+|'[^']*'|\w+\(\)", "#", text)[:70]), "%r\n%s (default library %s)\n%s" % (cl.cfg, h, d, text), files)
        cl.judge(h, d, rr, log, report, c.count)
    c.sample({"ops": work[0][1], "config": repr(work[0][0].cfg)})


def check(c):
    c.rule = "one case = one history of operations in one configuration, executed; calls, refused calls and log lines are counted; non-trivial: at least one call of a wrapped function"
    c.assumptions = ["hook macros of functions with variable arguments use the arguments without side effects (in C without GCC's inlining they are macros, as documented)", "GDO_WRAP_VISIBILITY is used in one source file only"]
    drive(c, VARIANTS, history, basic, c.n(5, 24), c.n(8, len(VARIANTS)), c.n(24, 150))
