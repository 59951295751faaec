"""R05: automatic loading loads once, on first use, and releases at exit."""
from checks import R04

TECHNIQUE = "runtime monitoring: the log of intercepted loader calls, interleaved with the library's own call log, is checked per first use and per later use (opens, symbols asked for, order, state afterwards), with failures injected; message, exit status and closed handles are checked when a load fails and at exit"
LEVEL_NOTE = "exploration: random signatures, orders of first use, eager and lazy, C/C++ x compilers x linkage x prefix, default library complete, incomplete, broken or absent, mixed with explicit loads and frees, loader faults, sanitizer builds"
A, Z = "GDO_ENABLE_AUTOLOAD", "GDO_ENABLE_AUTOLOAD_LAZY"
VARIANTS = [
    dict(fmt="c", defs=[A], olevel="-O2"), dict(fmt="c", defs=[Z], olevel="-O0"), dict(fmt="c", defs=[Z], cc="clang", std="c99"), dict(fmt="c", defs=[A], separate=True, olevel="-O2"), dict(fmt="c", defs=[Z, "GDO_STATIC"], param="read"),
    dict(fmt="c", defs=[A, "GDO_WRAP_VISIBILITY="], olevel="-O2"), dict(fmt="c", defs=[Z], lang="c++"), dict(fmt="c", defs=[A, Z, "GDO_WRAP_FUNCTIONS"], prefix="My_Lib", separate=True, cc="clang"), dict(fmt="c", defs=[A], san="asan", cc="clang"), dict(fmt="c", defs=[Z], olevel="-O2", san="asan", param="read"),
    dict(fmt="c++", defs=[A]), dict(fmt="c++", defs=[Z], separate=True, cc="clang", std="c++20"), dict(fmt="c++", defs=[A], param="read", std="c++11"), dict(fmt="c++", defs=[Z, "GDO_WRAP_VISIBILITY="]), dict(fmt="c++", defs=[Z], prefix="zQ", san="asan"), dict(fmt="c++", defs=[A], separate=True, san="asan"),
]


def history(r, p, cl):
    ops = []
    nsyms = len(p.syms)
    for _ in range(r.randint(2, 14)):
        x = r.random()
        if x < 0.10:
            ops.append("L=" + p.libs[r.choice("AABMZN")])
        elif x < 0.14:
            ops.append(r.choice("DE"))
        elif x < 0.19:
            ops.append("A")
        elif x < 0.25:
            ops.append("S=%d" % r.randrange(nsyms))
        elif x < 0.28:
            ops.append("N=" + r.choice(p.syms).name)
        elif x < 0.37:
            ops.append(r.choice("FX"))
        elif x < 0.40 and cl.cxx:
            ops.append("V")
        elif x < 0.45 and cl.cxx:
            ops.append("B=%d" % r.randrange(3))
        elif x < 0.50:
            ops.append(r.choice(["fault open 1", "fault close 1", "fault atexit 1", "fault sym " + r.choice(p.syms).name, "faultclear"]))
        else:
            ops.append("C=%d" % r.choice(p.fn))
    if r.random() < 0.4:
        ops.append(r.choice(["Q", "Q=0", "Q=7"]))
    return ops, r.choice("AAAABBMMZN")


def basic(r, p, cl):
    """every function as the first one used; failures; again after a release"""
    order = list(p.fn)
    r.shuffle(order)
    H = [(["C=%d" % k for k in order] + ["C=%d" % k for k in order], "B"), (["C=%d" % k for k in order] + ["F"] + ["C=%d" % k for k in reversed(order)] + ["X"] + ["C=%d" % order[0]], "A")]
    for k in p.fn:
        o = r.choice(p.fn)
        H += [(["C=%d" % k, "C=%d" % o, "Q=%d" % r.randrange(5)], "A"), (["C=%d" % k, "C=%d" % o], "M"), (["C=%d" % k, "C=%d" % o], r.choice("ZN")), (["fault open 1", "C=%d" % k, "C=%d" % o], "A"), (["fault sym " + p.syms[k].name, "C=%d" % o, "C=%d" % k], "B")]
        if cl.cxx:
            H.append((["B=%d" % r.randrange(1, 3), "C=%d" % k, "C=%d" % o], r.choice("MZN")))
    return H


def check(c):
    c.rule = "one case = one history of operations in one configuration, executed with one kind of default library; calls, automatic loads, refused calls and log lines are counted; non-trivial: at least one call of a wrapped function"
    c.assumptions = list(["when the default library cannot be opened the message names the library; when it lacks a symbol it gives the loader's reason", "release at exit is required unless registering it or closing was made to fail"])
    R04.drive(c, VARIANTS, history, basic, c.n(5, 24), c.n(8, len(VARIANTS)), c.n(16, 120))
