"""Compares types printed by the tool with the model's through a real C++ compiler."""
import os, re
from . import decl
from .core import HarnessError, pmap, run, NCPU

BATCH = 24


def compile_batches(c, cases, tag):
    """cases: (id, syms, typedef_lines, proto_lines). Yields {id: [messages]} of failing cases."""
    d = c.mkdir("types-" + tag)
    batches = [cases[i:i + BATCH] for i in range(0, len(cases), BATCH)]
    bad = {}

    def one(ib):
        i, b = ib
        return compile_one(c, os.path.join(d, "b%d.cpp" % i), b)
    for res in pmap(one, list(enumerate(batches))):
        bad.update(res)
    return bad


def compile_one(c, fn, batch):
    with open(fn, "w") as f:
        f.write(decl.type_check_cpp(batch))
    r = run(["g++", "-std=c++17", "-w", "-fmax-errors=0", "-fsyntax-only", fn], timeout=300)
    if r.timeout:
        raise HarnessError("compiler timed out")
    c.count("type_comparisons", sum(len(x[1]) for x in batch))
    if r.rc == 0:
        return {}
    bad = {}
    ids = {x[0] for x in batch}
    for line in r.err.decode("utf-8", "replace").splitlines():
        m = re.match(r"([^:\s]+):(\d+):\d+: error: (.*)", line)
        if m and m.group(1) in ids:
            bad.setdefault(m.group(1), []).append(m.group(3))
    # a case broken by garbage (e.g. unbalanced parentheses) can spoil its neighbours: confirm alone
    if len(batch) > 1:
        confirmed = {}
        for x in batch:
            confirmed.update(compile_one(c, fn + ".s.cpp", [x]))
        if not confirmed and not bad:
            raise HarnessError("batch fails, single cases do not:\n" + r.text(2000))
        return confirmed
    if not bad:
        bad[batch[0][0]] = [r.err.decode("utf-8", "replace")[:1500]]
    return bad


def closed_lists(c, cases, tag):
    """C only: a function declared with (void) must not take arguments, which (unlike in C++) an empty list
    would allow. Same arguments and result as compile_batches."""
    d = c.mkdir("void-" + tag)

    def one(k):
        i, (cid, syms, tds, protos) = k
        fs = [s for s in syms if isinstance(s.type, decl.Fn) and not s.type.params and not s.type.variadic and s.type.void]
        if not fs:
            return None
        fn = os.path.join(d, "%d.c" % i)
        o = [decl.PRELUDE] + tds + ["extern " + p for p in protos]
        for s in fs:
            o.append("extern %s;" % decl.decl(decl.Fn(s.type.ret, [(decl.Base("int"), None)], False, False), "vkm_" + s.name))
            o.append('_Static_assert(!__builtin_types_compatible_p(__typeof__(%s), __typeof__(vkm_%s)), "%s accepts arguments");' % (s.name, s.name, s.name))
        with open(fn, "w") as f:
            f.write("\n".join(o) + "\n")
        r = run(["gcc", "-std=gnu17", "-w", "-fsyntax-only", fn], timeout=120)
        os.unlink(fn)
        c.count("empty_parameter_lists", len(fs))
        return (cid, [r.err.decode("utf-8", "replace")[:600]]) if r.rc else None
    return dict(x for x in pmap(one, list(enumerate(cases))) if x)
