"""T01: declarations come out with exactly their symbols and exactly their types."""
import os, re
from vk import decl, typeoracle
from vk.core import pmap, run, sha, HarnessError
from vk.tool import Tool

TECHNIQUE = "runtime monitoring: random declaration workloads through the real tool, types of every printed/generated symbol judged by a C++ compiler against an independent model"
LEVEL_NOTE = "exploration: thousands of random declaration sets and layouts per run; trusts g++'s type comparison and the declaration printer of vk/decl.py; says nothing about declaration forms the generator of workloads does not produce"


def check(c):
    c.rule = ("random declaration sets (functions, objects, arrays, function pointers, callbacks, qualifiers, aux-info and parenthesised "
              "spellings) in random layouts (comments, splices, preprocessor lines, type blocks, BOM, CRLF) x -param mode x format; "
              "non-trivial: accepted by the tool and every symbol's type compared by the compiler")
    c.assumptions = ["a declaration that begins with struct/union/enum/typedef is a type definition by documentation",
                     "-param=read inputs name their parameters, -param=create inputs do not (documented requirement)"]
    tool = Tool(c)
    n = c.n(1200, 12000)
    cases = []
    for i in range(n):
        mode = c.rng.choice(["read", "read", "skip", "create", "none"])
        named = mode in ("read", "none") or (mode == "skip" and c.rng.random() < 0.5)
        if mode == "create":
            named = False
        spec = decl.Spec(named=named)
        if c.rng.random() < 0.1:
            spec.nsyms = (20, 60)
        if c.rng.random() < 0.2:
            spec.funcs, spec.objects = c.rng.choice([(True, False), (False, True)])
        syms = decl.gen_decls(c.rng, spec)
        level = c.rng.choice([0, 1, 2, 2, 2, 2])
        data = decl.layout(c.rng, syms, True, level)
        if isinstance(data, str):
            data = data.encode()
        cases.append((i, mode, syms, data))

    def one(case):
        i, mode, syms, data = case
        args = ["-", "-print-symbols"] + ([] if mode == "none" else ["-param=" + mode])
        return tool.run(args, stdin=data)

    good = []
    for case, r in zip(cases, pmap(one, cases)):
        i, mode, syms, data = case
        files = {"input.txt": data, "output.txt": r.out, "stderr.txt": r.err,
                 "model.h": decl.PRELUDE + "".join("extern %s;\n" % s.canon() for s in syms), "cmd.txt": "gendlopen - -print-symbols -param=%s < input.txt\n" % mode}
        if r.timeout:
            c.inconcl("timeout on case %d" % i)
            continue
        if r.rc != 0:
            c.violation("rejected:" + sha(data), "valid declarations rejected (mode %s)\n%s" % (mode, r.text()), files)
            continue
        p = decl.parse_print_symbols(r.out)
        if p is None:
            c.violation("malformed:" + sha(data), "malformed symbol listing\n" + r.text(), files)
            continue
        tds, protos, cnt = p
        names = [decl.line_symbol(l) for l in protos]
        want = [s.name for s in syms if not s.is_func] + [s.name for s in syms if s.is_func]
        if names != want or cnt != len(want):
            c.violation("symbols:" + sha(data), "symbols differ: declared %s\nreported (%d) %s" % (want, cnt, names), files)
            continue
        bad_td = [t for t in tds if not re.search(r"\bgdo_[A-Za-z0-9_]+__t\b", t)]
        ntd = sum(1 for s in syms if s.kind() in ("fptr", "array"))
        if bad_td or len(tds) != ntd:
            c.violation("typedefs:" + sha(data), "unexpected typedef list %s (expected %d)" % (tds, ntd), files)
            continue
        good.append((i, mode, syms, data, tds, protos, files))
    printed = [("c%d" % g[0], g[2], g[4], g[5]) for g in good]
    bad = typeoracle.compile_batches(c, printed, "ps")
    for cid, msgs in typeoracle.closed_lists(c, printed, "ps").items():
        bad.setdefault(cid, msgs)
    for g in good:
        cid = "c%d" % g[0]
        if cid in bad:
            c.violation("types:" + sha(g[3]), "types differ (mode %s): %s" % (g[1], "; ".join(bad[cid][:6])), g[6])
        else:
            c.case(sha(g[3]))
            if g[0] % 60 == 0:
                c.sample({"mode": g[1], "declared": [s.canon() for s in g[2][:4]], "printed": g[5][:4]})
    generated(c, tool)
    declarator_lists(c, tool)


def generated(c, tool):
    """the types of the pointers in the generated code"""
    n = c.n(56, 400)
    jobs = []
    for i in range(n):
        fmt = ["c", "c++", "minimal", "minimal-c++", "plugin"][i % 5]
        mode = c.rng.choice(["read", "skip", "create"])
        named = mode == "read" or (mode == "skip" and c.rng.random() < 0.5)
        spec = decl.Spec(named=named, nsyms=(3, 16), incomplete_arrays=True)
        syms = decl.gen_decls(c.rng, spec)
        if fmt == "plugin":
            pass
        data = decl.layout(c.rng, syms, True, c.rng.choice([0, 2]))
        jobs.append((i, fmt, mode, syms, data if isinstance(data, bytes) else data.encode()))
    d = c.mkdir("gen-types")
    with open(d + "/prelude.h", "w") as f:
        f.write(decl.PRELUDE)

    def one(job):
        i, fmt, mode, syms, data = job
        w = os.path.join(d, str(i))
        os.makedirs(w)
        r = tool.run(["-", "-format=" + fmt, "-param=" + mode, "-out=" + w + "/gen.h"], stdin=data)
        if r.rc != 0:
            return ("gen", r)
        o = ["#include <type_traits>", "#include <stddef.h>", '#include "../prelude.h"', '#include "gen.h"', "namespace model {"]
        # the aliases are macros: the model's own names must not be expanded
        for s in syms:
            o.append("#undef %s" % s.name)
        o += ["extern %s;" % s.canon() for s in syms]
        o.append("}")
        for s in syms:
            if fmt in ("c", "c++"):
                e = "GDO_RAWPTR_" + s.name
            elif fmt == "minimal":
                e = "gdo_hndl.GDO_PTR_" + s.name
            elif fmt == "minimal-c++":
                e = "gdo::GDO_PTR_" + s.name
            else:
                e = None
            if e is None:
                o.append('static_assert(std::is_same<decltype(((gdo_handle_t *)0)->ptr.%s), std::add_pointer<decltype(model::%s)>::type>::value, "type of %s");' % (s.name, s.name, s.name))
            else:
                o.append('static_assert(std::is_same<decltype(%s), std::add_pointer<decltype(model::%s)>::type>::value, "type of %s");' % (e, s.name, s.name))
        with open(w + "/t.cpp", "w") as f:
            f.write("\n".join(o) + "\n")
        r = run(["g++", "-std=c++17", "-w", "-fsyntax-only", "-fpermissive", w + "/t.cpp"], timeout=300)
        return ("cc", r)

    for job, (stage, r) in zip(jobs, pmap(one, jobs)):
        i, fmt, mode, syms, data = job
        files = {"input.txt": data, "stderr.txt": r.err, "cmd.txt": "format=%s param=%s\n" % (fmt, mode)}
        if r.timeout:
            c.inconcl("timeout")
        elif r.rc != 0:
            what = "valid declarations rejected" if stage == "gen" else "types in generated code differ"
            errs = [l for l in r.err.decode("utf-8", "replace").splitlines() if "error" in l][:6]
            c.violation("gen-%s:%s" % (fmt, sha(data)), "%s (format %s, param %s)\n%s" % (what, fmt, mode, "\n".join(errs)), files)
        else:
            c.case("gen" + fmt + sha(data))
            c.count("generated_headers_checked")
            c.count("type_comparisons", len(syms))


def declarator_lists(c, tool):
    """several declarators in one declaration: all declared, or refused; never some lost"""
    r = c.rng
    for i in range(c.n(40, 300)):
        spec = decl.Spec(named=r.random() < 0.7, nsyms=(2, 3), tagged=False, styles=False)
        syms = decl.gen_decls(r, spec)
        b = r.choice(["int", "unsigned int", "const char", "vk_long"])
        parts = []
        for s in syms:
            t = s.type
            parts.append(r.choice(["%s", "*%s", "%s[3]", "%s(int x)", "(*%s)(int x)", "*%s(void)", "**%s", "(%s)(int x)"]) % s.name)
        text = b + " " + ", ".join(parts) + ";\n"
        res = tool.run(["-", "-print-symbols", "-param=" + r.choice(["read", "skip", "create"])], stdin=text.encode())
        if res.rc == 0:
            p = decl.parse_print_symbols(res.out)
            names = sorted(str(decl.line_symbol(l)) for l in p[1]) if p else None
            if names != sorted(s.name for s in syms):
                c.violation("multi:" + sha(text), "declaration list accepted but symbols lost: %s -> %s" % (text, names), {"input.txt": text, "output.txt": res.out})
        c.case("multi" + sha(text))
        c.count("declarator_lists")
