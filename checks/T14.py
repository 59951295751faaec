"""T14: every output for accepted declarations compiles cleanly in its language, and links."""
import os, random, re
from vk import decl, gen, prog
from vk.core import pmap, run2, sha
from vk.tool import Tool

TECHNIQUE = "runtime monitoring: the real tool's output for random declarations, options and macros is compiled (-Wall -Wextra -Werror) by gcc and clang in the documented language standards together with clients that use every symbol, and linked; a control build of the same client against plain declarations tells whether a diagnostic is the client's"
LEVEL_NOTE = "exploration: random draws from the product of formats x parameter modes x options x documented macros x compilers x language standards x declaration sets of all supported shapes"

FMTS = ["c", "c++", "minimal", "minimal-c++", "plugin"]
CXXF = ("c++", "minimal-c++")
CSTD = [None, "c99", "c11", "c17", "gnu99", "gnu11", "c2x", "gnu2x"]
CXXSTD = [None, "c++11", "c++14", "c++17", "c++20", "c++23", "gnu++11", "gnu++17"]
# qualifiers of the declarations themselves may be pointless: that is not the generator's doing
STRICT = ["-Wall", "-Wextra", "-Werror", "-Wno-ignored-qualifiers"]


def declarations(r, named):
    q = r.random()
    kw = dict(named=named, nsyms=(1, 10))
    if q < 0.12:
        kw["funcs"] = False
    elif q < 0.24:
        kw["objects"] = False
    elif q < 0.34:
        kw["nsyms"] = (1, 1)
    elif q < 0.40:
        kw["nsyms"] = (20, 45)
    spec = decl.Spec(**kw)
    while True:
        syms = [s for s in decl.gen_decls(r, spec) if prog.usable(s)]
        if syms:
            break
    # names in relation to one another and to words of the templates
    if r.random() < 0.3:
        pool = ["vk_", "vk_a", "vk_ab", "handle", "filename", "ptr", "flags", "new_namespace", "a1", "symbol", "lib_handle", "m_handle", "args", "msg", "loader", "T", "num", "ret", "value", "x", "i", "load", "wrap", "gdo_fn", "list", "size", "errbuf", "last_errno"]
        r.shuffle(pool)
        for s in syms[:r.randint(1, len(syms))]:
            if pool:
                s.name = pool.pop()
    return syms


def usage(r, syms, how, rawptr, cxx, skipva=False):
    """statements that use every symbol: [(declarations, statements)]"""
    o = []
    for k, s in enumerate(syms):
        plain = how != "raw"
        if skipva and s.is_func and s.type.variadic:
            plain = False
        if s.is_func:
            f = s.type
            args, decls = [], []
            for j, (t, _) in enumerate(f.params):
                t = t if isinstance(t, (decl.Ptr, decl.Arr)) else t
                b = prog.bare(t)
                decls.append("  static %s;" % decl.decl(decl.strip_names(b) if hasattr(decl, "strip_names") else b, "p%d" % j))
                args.append("p%d" % j)
            if f.variadic:
                args += r.choice([[], ["1"], ["2.5", '"x"'], ["(char *)0", "7L", "1.0"]])
            name = s.name if plain else rawptr % s.name
            void = prog.is_void(f.ret)
            o.append(("{", decls, ["  %s%s(%s);" % ("" if void else "(void)", name, ", ".join(args))], "}"))
        else:
            e = "&%s" % s.name if plain else rawptr % s.name
            o.append(("{", [], ["  zz_use((uintptr_t)(%s));" % e], "}"))
    return o


def draw(r, i):
    d = {}
    d["fmt"] = fmt = FMTS[i % 5] if i % 7 else r.choice(["c", "c++"])
    d["cxx"] = cxx = fmt in CXXF or r.random() < 0.3
    d["cc"] = r.choice(["gcc", "clang"])
    d["std"] = r.choice(CXXSTD if cxx else CSTD)
    d["olevel"] = r.choice(["-O0", "-O1", "-O2", "-O3", "-Os"])
    d["param"] = r.choice(["read", "skip", "create", "create"])
    d["prefix"] = r.choice([None, None, None, None, "My_Lib", "zQ9", "_p"])
    d["separate"] = fmt in ("c", "c++", "plugin") and r.random() < 0.4
    d["opts"] = [x for x in ["-line", "-no-date", "-no-pragma-once", "-include=<stdio.h>", "-include=nq:VK_INC", "-DFOO", "-DBAR=1"] if r.random() < 0.15]
    defs = []
    lib = r.choice([None, "opt", "ext", "api", "nq", "def", "defA"])
    lib = lib and {"opt": "-library=libx.so.1", "ext": "-library=ext:libx", "api": "-library=api:2:x", "nq": "-library=nq:VK_LIB", "def": 'DEFAULT_LIB="x.so"', "defA": 'DEFAULT_LIBA="x.so"'}[lib]
    if lib and lib[0] == "-":
        d["opts"].append(lib)
    elif lib:
        defs.append(lib)
    if fmt in ("c", "c++"):
        if d["param"] != "skip":
            q = r.random()
            if q < 0.25:
                defs.append("WRAP_FUNCTIONS")
            elif q < 0.5 and lib:
                defs += r.choice([["ENABLE_AUTOLOAD"], ["ENABLE_AUTOLOAD_LAZY"], ["ENABLE_AUTOLOAD", "ENABLE_AUTOLOAD_LAZY"], ["WRAP_FUNCTIONS", "ENABLE_AUTOLOAD"]])
        if any("WRAP_F" in x or "AUTOLOAD" in x for x in defs) and not d["separate"] and r.random() < 0.35:
            defs.append(r.choice(["WRAP_VISIBILITY=", 'WRAP_VISIBILITY=__attribute__((visibility("default")))', "WRAP_VISIBILITY=extern"]))
    if r.random() < 0.3:
        defs.append("DISABLE_ALIASING")
    if r.random() < 0.3 or any("VISIB" in x for x in defs):
        defs.append("DISABLE_WARNINGS")
    if r.random() < 0.2:
        defs.append("DEFAULT_FLAGS=RTLD_NOW")
    if fmt not in CXXF and not cxx and not d["separate"] and r.random() < 0.35:
        defs.append("STATIC")
    d["defs"] = defs
    return d


def api(fmt, pfx, defs, d):
    """calls of the documented interface"""
    g = gen.rename("gdo", pfx) if pfx else "gdo"
    dl = any("DEFAULT_LIB" in x for x in defs) or any(o.startswith("-library") for o in d["opts"])
    if fmt == "c":
        l = ['if (!G_load_lib_name("x")) zz_use((uintptr_t)G_last_error());', "(void)G_load_lib_name_and_symbols(\"x\");", "(void)G_load_lib_args(\"x\", RTLD_LAZY, false);", "(void)G_lib_is_loaded();", "(void)G_load_all_symbols();", "(void)G_load_symbol(0);", '(void)G_load_symbol_name("x");',
             "(void)G_all_symbols_loaded();", "(void)G_no_symbols_loaded();", "(void)G_any_symbol_loaded();", "zz_use((uintptr_t)G_library_path());", "G_enable_autorelease();", "(void)G_free_lib();", "G_force_free_lib();"]
        if dl:
            l += ["(void)G_load_lib();", "(void)G_load_lib_and_symbols();"]
    elif fmt == "c++":
        l = ["G::dl dl;", 'G::dl dl2("x");', "(void)dl.load();", "(void)dl.load_lib_and_symbols();", "(void)G::dl::lib_loaded();", "(void)dl.flags();", "(void)dl.load_all_symbols();", "(void)dl.load_symbol(0);", '(void)dl.load_symbol("x");',
             "(void)dl.all_symbols_loaded();", "(void)dl.no_symbols_loaded();", "(void)dl.any_symbol_loaded();", "(void)dl.free();", 'G::dl *h = new G::dl("y", G::default_flags, true);', '(void)h->load("z"); delete h;',
             "zz_use((uintptr_t)dl.error().c_str());", "(void)dl.library_path();", "(void)dl.filename();", "dl.free_lib_in_dtor(false);", "(void)dl.free_lib_in_dtor();"]
        if any("WRAP_F" in x or "AUTOLOAD" in x for x in defs):
            l += ["G::dl::message_callback(nullptr);", "(void)G::dl::message_callback();"]
    elif fmt == "minimal":
        l = ['{ const char *e = G_load_library_and_symbols("x"); zz_use((uintptr_t)e); }', "G_free_library();"]
    elif fmt == "minimal-c++":
        l = ['try { G::load_library_and_symbols("x"); } catch (const G::LibraryError &e) { zz_use((uintptr_t)&e); } catch (const G::SymbolError &e) { zz_use((uintptr_t)e.what()); }', "G::free_library();"]
    else:
        l = ['{ const char *f[] = { "x" }; G_plugin_t *p = G_load_plugins(f, 1); zz_use((uintptr_t)p); G_release_plugins(p); }']
    return [x.replace("G_", g + "_").replace("G::", g + "::") for x in l]


def build(c, tool, w, r, i):
    d = draw(r, i)
    fmt0 = d["fmt"]
    syms = declarations(r, d["param"] == "read" or d["param"] == "skip" and r.random() < 0.5)
    if fmt0 == "c++" and "DISABLE_ALIASING" not in d["defs"]:
        # alias macros of the names of the class's members get in their way, by nature
        for s in syms:
            if s.name in ("load", "filename", "flags", "free", "error"):
                s.name += "_x"
    named = d["param"] != "create"
    os.makedirs(w)
    fmt, pfx = d["fmt"], d["prefix"]
    P = gen.rename("GDO_", pfx) if pfx else "GDO_"
    ext = ".hpp" if fmt in CXXF else ".h"
    args = ["-", "-format=" + fmt, "-param=" + d["param"], "-out=out" + ext] + (["-separate"] if d["separate"] else []) + (["-prefix=" + pfx] if pfx else []) + d["opts"]
    text = decl.plain_text(syms, names=named)
    g = tool.run(args, stdin=text.encode(), cwd=w)
    if g.timeout:
        return d, text, args, "timeout", g, None
    if g.rc:
        return d, text, args, "generator", g, None
    open(w + "/vk_prelude.h", "w").write(decl.PRELUDE + "\n#include <stdint.h>\n#define VK_INC <stddef.h>\n#define VK_LIB \"vk.so\"\n")
    noalias = any(x == "DISABLE_ALIASING" for x in d["defs"])
    if fmt in ("c", "c++"):
        how, raw = ("raw", P + "RAWPTR_%s") if noalias or d["param"] == "skip" and False else ("plain", P + "RAWPTR_%s")
    elif fmt == "minimal":
        how, raw = ("raw" if noalias else "plain"), gen.rename("gdo_hndl", pfx or "gdo") + "." + P + "PTR_%s"
    elif fmt == "minimal-c++":
        how, raw = ("raw" if noalias else "plain"), gen.rename("gdo", pfx or "gdo") + "::" + P + "PTR_%s"
    else:
        how, raw = "raw", "zz_list->ptr.%s"
    order = list(syms)
    r.shuffle(order)
    # with visible wrappers, variadic functions have no plain name in C (they are macros)
    use = usage(r, order, how, raw, d["cxx"], fmt == "c" and any("VISIB" in x for x in d["defs"]))

    def client(header, tag, calls):
        o = ['#include "vk_prelude.h"', header, "#if defined(__cplusplus)", 'extern "C" {', "#endif", "void zz_use%s(uintptr_t);" % tag, "void zz_call%s(void);" % tag, "#if defined(__cplusplus)", "}", "#endif",
             "static volatile uintptr_t zz_sink;", "void zz_use%s(uintptr_t p) { zz_sink = p; }" % tag, "#define zz_use zz_use%s" % tag]
        if fmt == "plugin" and calls:
            o.append("static %s *zz_list;" % gen.rename("gdo_handle_t", pfx or "gdo"))
        for k, (a, ds, st, b) in enumerate(use):
            o += ["void zz_u%s_%d(void);" % (tag, k), "void zz_u%s_%d(void)" % (tag, k), a] + ds + st + [b]
        o += ["void zz_call%s(void)" % tag, "{"] + ["  " + x for x in (calls or [])] + ["  zz_u%s_%d();" % (tag, k) for k in range(len(use))] + ["}"]
        return "\n".join(o) + "\n"
    cxx = d["cxx"]
    cc = {"gcc": ("gcc", "g++"), "clang": ("clang", "clang++")}[d["cc"]]
    flags = [d["olevel"], "-I" + w] + STRICT 
    quiet = lambda x: (["-Wno-deprecated-volatile"] if cc[0] == "clang" else ["-Wno-volatile"]) if x else []
    defs = ["-D" + P + x for x in d["defs"]]
    std = ["-std=" + d["std"]] if d["std"] else []
    n = 2 if d["separate"] or "STATIC" in d["defs"] else 1
    if any("VISIB" in x for x in d["defs"]):
        n = 1
    files = []
    for t in range(n):
        f = "%s/t%d%s" % (w, t, ".cpp" if cxx else ".c")
        open(f, "w").write(client('#include "out%s"' % ext, str(t), api(fmt, pfx, d["defs"], d)))
        files.append((f, [cc[cxx]] + std + flags + quiet(cxx) + defs))
    if d["separate"]:
        bx = fmt in CXXF
        files.append((w + "/out" + (".cpp" if bx else ".c"), [cc[bx]] + (std if bx == cxx else []) + flags + quiet(bx) + defs + ["-include", w + "/vk_prelude.h"]))
    main = w + "/main.c"
    open(main, "w").write("".join("void zz_call%d(void);\n" % t for t in range(n)) + "int main(int argc, char **argv) {\n  (void)argv;\n  if (argc > 99) {\n" + "".join("    zz_call%d();\n" % t for t in range(n)) + "  }\n  return 0;\n}\n")
    files.append((main, ["gcc", "-O0"]))
    objs = []
    for f, cmd in files:
        rr = run2(cmd + ["-c", f, "-o", f + ".o"], timeout=300)
        if rr.timeout:
            return d, text, args, "timeout", rr, None
        if rr.rc or rr.err.strip():
            # is it the client's own?
            ctl = w + "/ctl" + os.path.splitext(f)[1]
            if f.startswith(w + "/t"):
                o2 = usage(random.Random(0), order, "plain", "", cxx)
                h = "#include <dlfcn.h>\n#include <stdbool.h>\n" + ('extern "C" {\n' if cxx else "") + "\n".join("extern %s;" % s.canon() for s in syms) + ("\n}" if cxx else "")
                use2, use[:] = list(use), o2
                open(ctl, "w").write(client(h, "0", None))
                use[:] = use2
                r2 = run2([x for x in cmd if not x.startswith("-D")] + ["-c", ctl, "-o", ctl + ".o"], timeout=300)
                if r2.rc or r2.err.strip():
                    return d, text, args, "client", r2, " ".join(cmd)
            return d, text, args, "compile", rr, " ".join(cmd + [f])
        objs.append(f + ".o")
    rr = run2([cc[cxx or fmt in CXXF]] + objs + ["-o", w + "/t.exe", "-ldl"], timeout=300)
    if rr.rc or rr.err.strip():
        return d, text, args, "link", rr, None
    rr = run2([w + "/t.exe"], timeout=60)
    if rr.rc:
        return d, text, args, "start", rr, None
    return d, text, args, "ok", rr, len(files)


def check(c):
    c.rule = "one case = one generated output, compiled with its clients by one compiler and standard and linked; translation units are counted; non-trivial: all translation units compiled"
    c.assumptions = ["declared types are complete in the including file", "variadic wrappers with GDO_WRAP_VISIBILITY warn on purpose unless GDO_DISABLE_WARNINGS is defined", "C++ cannot copy volatile structures"]
    tool = Tool(c)
    r = c.rng
    root = c.mkdir("b")
    jobs = [(i, r.getrandbits(64)) for i in range(c.n(420, 5000))]
    for (i, _), (d, text, args, stage, rr, info) in zip(jobs, pmap(lambda j: build(c, tool, os.path.join(root, str(j[0])), random.Random(j[1]), j[0]), jobs)):
        if stage == "timeout":
            c.inconcl("timeout")
            continue
        if stage == "client":
            c.count("client_set_aside")
            c.extra.setdefault("client_set_aside_why", []).append(rr.text(500))
            continue
        c.case(sha(text + repr(d)), nontrivial=stage == "ok")
        if stage == "ok":
            c.count("translation_units", info)
            c.count("fmt_" + d["fmt"])
            continue
        err = rr.err.decode("utf-8", "replace") + rr.out.decode("utf-8", "replace")
        first = next((l for l in err.splitlines() if "error" in l or "warning" in l or "undefined" in l or "multiple" in l), err[:100])
        key = re.sub(r"\S+/|'[^']*'|‘[^’]*’|\d+|`[^']*'", "#", first)[:90]
        w = os.path.join(root, str(i))
        fs = {n: open(w + "/" + n, "rb").read() for n in os.listdir(w) if n.endswith((".c", ".cpp", ".h", ".hpp"))} if os.path.isdir(w) else {}
        fs["input.txt"] = text
        c.violation("%s:%s:%s" % (d["fmt"], stage, key), "%s fails: %s\n%s\nargs %s\n%s" % (stage, d, info, args, err[:2500]), fs)
    announced(c, tool)
    c.sample({"config": repr(jobs and d), "args": repr(args)})


def announced(c, tool):
    """the one warning the output gives on purpose: visible wrappers of variadic functions"""
    r = c.rng
    root = c.mkdir("w")
    jobs = [(i, r.getrandbits(64)) for i in range(c.n(16, 120))]

    def one(j):
        rr = random.Random(j[1])
        w = os.path.join(root, str(j[0]))
        os.makedirs(w)
        fmt = rr.choice(["c", "c++"])
        syms = declarations(rr, False)
        if rr.random() < 0.8:
            for n in rr.sample(["vkva_a", "vkva_", "zz_va", "vkva_bcd"], rr.randint(1, 4)):
                syms.append(decl.Sym(n, decl.Fn(decl.Base(rr.choice(["int", "void"])), [(decl.Base("int"), None)], variadic=True)))
        rr.shuffle(syms)
        ext = ".hpp" if fmt == "c++" else ".h"
        g = tool.run(["-", "-format=" + fmt, "-param=create", "-out=out" + ext], stdin=decl.plain_text(syms, names=False).encode(), cwd=w)
        if g.rc:
            return "generator", g, None, None
        vis, mute, wrap = rr.random() < 0.7, rr.random() < 0.3, rr.random() < 0.7
        open(w + "/vk_prelude.h", "w").write(decl.PRELUDE)
        src = w + "/t" + (".cpp" if fmt == "c++" else ".c")
        open(src, "w").write('#include "vk_prelude.h"\n#include "out%s"\n' % ext)
        cc = rr.choice([("gcc", "g++"), ("clang", "clang++")])[fmt == "c++"]
        res = run2([cc, "-O1", "-Wall", "-Wextra", "-Wno-ignored-qualifiers", "-Wno-volatile" if cc == "g++" else "-Wno-deprecated-volatile" if cc == "clang++" else "-Wall", "-I" + w, "-c", src, "-o", src + ".o"]
                   + ["-DGDO_WRAP_FUNCTIONS"] * wrap + ["-DGDO_WRAP_VISIBILITY="] * vis + ["-DGDO_DISABLE_WARNINGS"] * mute, timeout=300)
        want = sorted(s.name for s in syms if s.is_func and s.type.variadic) if wrap and vis and not mute else []
        return "compile", res, want, (fmt, cc, wrap, vis, mute)

    for (i, _), (stage, res, want, d) in zip(jobs, pmap(one, jobs)):
        if res.timeout:
            c.inconcl("timeout")
            continue
        err = res.err.decode("utf-8", "replace")
        got = sorted(re.findall(r"warning: GDO_WRAP_VISIBILITY defined but wrapper function (\w+)\(\)", err))
        n = len(re.findall(r"\b(?:warning|error): ", err))
        if res.rc or got != want or n != len(want):
            c.violation("announced:%s:%s" % (stage, "rc" if res.rc else "names" if got != want else "other"), "%s: warnings for %s, expected for %s\n%s" % (d, got, want, err[:2000]), {"err.txt": err})
            continue
        c.case("announced%d" % i + str(want))
        c.count("announced_warnings", len(want))
