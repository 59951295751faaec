"""R03: code that uses the generated names behaves as if linked to the library."""
import os, re
from vk import decl, gen, prog
from vk.core import VERIF, HarnessError, pmap, run2, sha
from vk.gen import HARNESS, Config
from vk.tool import Tool

TECHNIQUE = "runtime monitoring, differential: the same client program, linked to the library directly and through every generated format; the traces of both sides (arguments, results, object values, addresses, callbacks) must be equal"
LEVEL_NOTE = "exploration: random declarations with real library behaviour; every symbol called, read, written, mutated by the library, taken the address of, used as a value; sanitizer builds included"

VARIANTS = [
    dict(fmt="c"), dict(fmt="c", cc="clang", std="c99"), dict(fmt="c", separate=True), dict(fmt="c", lang="c++"), dict(fmt="c", defs=["GDO_WRAP_FUNCTIONS"], olevel="-O2"), dict(fmt="c", defs=["GDO_WRAP_FUNCTIONS"], olevel="-O0"),
    dict(fmt="c", defs=["GDO_WRAP_FUNCTIONS"], cc="clang"), dict(fmt="c", defs=["GDO_WRAP_FUNCTIONS"], separate=True, olevel="-O2"), dict(fmt="c", defs=["GDO_WRAP_FUNCTIONS", "GDO_WRAP_VISIBILITY="]), dict(fmt="c", defs=["GDO_WRAP_FUNCTIONS", "GDO_STATIC"]), dict(fmt="c", defs=["GDO_WRAP_FUNCTIONS"], lang="c++"),
    dict(fmt="c", param="skip"), dict(fmt="c", param="read"), dict(fmt="c", param="read", defs=["GDO_WRAP_FUNCTIONS"]), dict(fmt="c", defs=["GDO_DISABLE_ALIASING"]), dict(fmt="c", prefix="My_Lib"), dict(fmt="c", prefix="Z", defs=["GDO_WRAP_FUNCTIONS"]), dict(fmt="c", defs=["GDO_STATIC"], opts=["-line"]),
    dict(fmt="c", defs=["GDO_ENABLE_AUTOLOAD"]), dict(fmt="c", defs=["GDO_ENABLE_AUTOLOAD_LAZY"]), dict(fmt="c", defs=["GDO_ENABLE_AUTOLOAD"], separate=True, cc="clang"),
    dict(fmt="c++"), dict(fmt="c++", cc="clang", std="c++11"), dict(fmt="c++", separate=True), dict(fmt="c++", defs=["GDO_WRAP_FUNCTIONS"]), dict(fmt="c++", defs=["GDO_WRAP_FUNCTIONS"], separate=True, cc="clang", std="c++20"), dict(fmt="c++", defs=["GDO_DISABLE_ALIASING"]), dict(fmt="c++", prefix="My_Lib", defs=["GDO_WRAP_FUNCTIONS"]),
    dict(fmt="c++", defs=["GDO_ENABLE_AUTOLOAD"]), dict(fmt="c++", defs=["GDO_ENABLE_AUTOLOAD_LAZY"], std="c++17"), dict(fmt="c++", param="skip"), dict(fmt="c++", param="read", defs=["GDO_WRAP_FUNCTIONS"], olevel="-O2"), dict(fmt="c++", defs=["GDO_WRAP_FUNCTIONS", "GDO_WRAP_VISIBILITY="]),
    dict(fmt="minimal"), dict(fmt="minimal", cc="clang", defs=["GDO_STATIC"]), dict(fmt="minimal", lang="c++"), dict(fmt="minimal", prefix="My_Lib"), dict(fmt="minimal", param="skip"), dict(fmt="minimal-c++"), dict(fmt="minimal-c++", cc="clang", std="c++11", param="read"), dict(fmt="minimal-c++", prefix="xY"),
    dict(fmt="plugin"), dict(fmt="plugin", separate=True, cc="clang"), dict(fmt="plugin", lang="c++"),
]

MAIN = {
    "c": 'int main(void) {\n  if (!gdo_load_lib_name_and_symbols(ZZ_LIB)) { printf("load failed: %s\\n", gdo_last_error()); return 3; }\n  zz_client();\n  return gdo_free_lib() ? 0 : 4;\n}',
    "c-auto": 'int main(void) {\n  zz_client();\n  return 0;\n}',
    "c++": 'int main() {\n  gdo::dl l(ZZ_LIB);\n  if (!l.load_lib_and_symbols()) { printf("load failed: %s\\n", l.error().c_str()); return 3; }\n  zz_client();\n  return l.free() ? 0 : 4;\n}',
    "c++-auto": 'int main() {\n  zz_client();\n  return 0;\n}',
    "minimal": 'int main(void) {\n  const char *e = gdo_load_library_and_symbols(ZZ_LIB);\n  if (e) { printf("load failed: %s\\n", e); return 3; }\n  zz_client();\n  gdo_free_library();\n  return 0;\n}',
    "minimal-c++": 'int main() {\n  try { gdo::load_library_and_symbols(ZZ_LIB); } catch (const std::exception &e) { printf("load failed: %s\\n", e.what()); return 3; }\n  zz_client();\n  gdo::free_library();\n  return 0;\n}',
    "plugin": 'int main(void) {\n  const char *f[1] = { ZZ_LIB };\n  gdo_plugin_t *p = gdo_load_plugins(f, 1);\n  if (!p || !p->list[0].handle) { printf("load failed\\n"); return 3; }\n  zz_rec = &p->list[0];\n  zz_client();\n  gdo_release_plugins(p);\n  return 0;\n}',
}


def refs(cfg, pfx):
    if cfg.fmt == "plugin":
        return lambda s: "zz_rec->ptr." + s.name if s.is_func else "(*zz_rec->ptr.%s)" % s.name
    if any("DISABLE_ALIASING" in d for d in cfg.defs):
        return lambda s: "%sRAWPTR_%s" % (pfx, s.name) if s.is_func else "(*%sRAWPTR_%s)" % (pfx, s.name)
    return lambda s: s.name


class Program:
    """library, direct traces"""

    def __init__(self, c, r, k, syms, san="plain"):
        self.c, self.k, self.syms, self.san = c, k, syms, san
        self.w = c.mkdir("p%d" % k)
        self.g = prog.Gen(r, syms)
        w = self.w
        open(w + "/vk_prelude.h", "w").write(decl.PRELUDE)
        open(w + "/lib.c", "w").write(self.g.library())
        self.lib = w + "/libzz%d.so" % k
        self.base = ["-w", "-include", w + "/vk_prelude.h", "-I" + HARNESS]
        gen.cc_run(["gcc", "-O1", "-shared", "-fPIC", "-o", self.lib, w + "/lib.c"] + self.base, "program library")
        gen.cc_run(["gcc", "-O1", "-c", "-fPIC", "-o", w + "/zzrt.o", HARNESS + "/zzrt.c"] + self.base, "run time")
        self.inputs = decl.plain_text(syms)
        self.inputs_nonames = decl.plain_text(syms, names=False)

    def source(self, ref, main, header, wrapped=False, before="", hooktext="", rec="", funcs_only=False):
        cbs, body = self.g.client(ref, wrapped, funcs_only)
        return '#include "zzrt.h"\n#include <stdio.h>\n%s\n%s\n%s\n%s\n%s\nstatic void zz_client(void) {\n%s\n}\n%s\n' % (hooktext, before, header, rec, cbs, body, main)

    def direct(self, cxx, funcs_only=False):
        w = self.w
        hdr = "\n".join("extern %s;" % s.canon() for s in self.syms)
        if cxx:
            hdr = 'extern "C" {\n%s\n}' % hdr
        src = w + "/direct%d" % funcs_only + (".cpp" if cxx else ".c")
        open(src, "w").write(self.source(lambda s: s.name, "int main(void) { zz_client(); return 0; }", hdr, funcs_only=funcs_only))
        exe = src + ".exe"
        gen.cc_run(["g++" if cxx else "gcc", "-O1", "-fPIC", src, w + "/zzrt.o", "-rdynamic", "-o", exe, self.lib, "-Wl,-rpath," + w] + self.base, "direct program")
        r = run2([exe], cwd=w)
        if r.rc != 0:
            raise HarnessError("direct program: " + r.text())
        return r.out

    def variant(self, tool, cfg, i, hook=False, main=None, run=True, extra_before=""):
        """builds the client over generated code; returns (exe, source path)"""
        w = os.path.join(self.w, "v%d" % i)
        os.makedirs(w, exist_ok=True)
        pfx = gen.rename("GDO_", cfg.prefix) if cfg.prefix else "GDO_"
        cfg = Config(**dict(cfg.__dict__))
        cfg.defs = [d.replace("GDO_", pfx, 1) if cfg.prefix else d for d in cfg.defs]
        auto = any("AUTOLOAD" in d for d in cfg.defs)
        wrapped = any("WRAP" in d for d in cfg.defs) or auto
        if wrapped:
            cfg.defs.append(pfx + "DISABLE_WARNINGS")
        opts = list(cfg.opts) + ["-library=" + self.lib]
        cxx = cfg.fmt in ("c++", "minimal-c++")
        hdr = "vkhdr" + (".hpp" if cxx else ".h")
        args = ["-", "-format=" + cfg.fmt, "-param=" + cfg.param, "-no-date", "-out=" + hdr] + (["-separate"] if cfg.separate else []) + (["-prefix=" + cfg.prefix] if cfg.prefix else []) + opts
        r = tool.run(args, stdin=(self.inputs_nonames if cfg.param == "create" else self.inputs).encode(), cwd=w)
        if r.rc != 0:
            raise HarnessError("generator fails: %s\n%s" % (args, r.text()))
        cxxc = cxx or cfg.lang == "c++"
        ccx = {"gcc": ("gcc", "g++"), "clang": ("clang", "clang++")}[cfg.cc][cxxc]
        before = hooktext = ""
        if hook:
            hooktext, before = prog.hooks(self.g, self.syms)
        text = self.source(refs(cfg, "GDO_"), main or MAIN[cfg.fmt + ("-auto" if auto else "")], '#include "%s"' % hdr, wrapped, before + extra_before, hooktext, "static gdo_handle_t *zz_rec;" if cfg.fmt == "plugin" else "", lazy(cfg))
        if cfg.prefix:
            text = "\n".join(gen.rename(l, cfg.prefix) if "gdo" in l.lower() else l for l in text.split("\n"))
        src = os.path.join(w, "prog" + (".cpp" if cxxc else ".c"))
        open(src, "w").write(text)
        flags = [cfg.olevel] + self.base + ["-I" + w, '-DZZ_LIB="%s"' % self.lib] + gen.san_flags(cfg) + ["-D" + d for d in cfg.defs]
        std = ["-std=" + cfg.std] if cfg.std else []
        objs = []
        files = [src] + ([os.path.join(w, "vkhdr" + (".cpp" if cxx else ".c"))] if cfg.separate else [])
        for f in files:
            isx = f.endswith(".cpp")
            fl = flags + (std if isx == cxxc else [])
            gen.cc_run([ccx if isx == cxxc else cfg.cc, "-c", f, "-o", f + ".o"] + fl, "client (%r)" % cfg)
            objs.append(f + ".o")
        exe = src + ".exe"
        gen.cc_run([ccx] + objs + [self.w + "/zzrt.o", "-rdynamic", "-o", exe, "-ldl"] + gen.SAN[cfg.san], "client link (%r)" % cfg)
        return exe, src


def build_programs(c, r, n, spec=None):
    """n programs with their direct traces"""
    import random
    seeds = [r.getrandbits(64) for _ in range(n)]

    def one(k):
        rr = random.Random(seeds[k])
        p = Program(c, rr, k, prog.symbols(rr, spec=spec))
        p.trace = {(x, f): p.direct(x, f) for x in (False, True) for f in (False, True)}
        return p
    return pmap(one, range(n))


def expected(p, cfg):
    return p.trace[cfg.fmt in ("c++", "minimal-c++") or cfg.lang == "c++", lazy(cfg)]


def lazy(cfg):
    """only functions load themselves"""
    return any("LAZY" in d for d in cfg.defs)


def diff(a, b):
    a, b = a.decode("utf-8", "replace").split("\n"), b.decode("utf-8", "replace").split("\n")
    for i in range(max(len(a), len(b))):
        x, y = a[i] if i < len(a) else "(end)", b[i] if i < len(b) else "(end)"
        if x != y:
            return "trace line %d: direct %r, generated code %r (after %r)" % (i, x, y, a[max(0, i - 3):i])
    return "equal"


def check(c):
    c.rule = "one case = one client program in one format and configuration, executed; trace lines compared are counted; non-trivial: trace of at least 10 lines"
    c.assumptions = ["functions used by calls and as values (their address is the value of the name; wrappers have addresses of their own), objects in any expression", "volatile structures are not passed by value (C++ cannot copy them)", "in C, variable argument wrappers that are macros are only called",
                     "automatic loading starts with a function, as it does not work for objects (documented)"]
    tool = Tool(c)
    r = c.rng
    progs = build_programs(c, r, c.n(14, 60))
    jobs = []
    per = c.n(14, len(VARIANTS))
    off = r.randrange(len(VARIANTS))
    for p in progs:
        for j in range(per):
            kw = dict(VARIANTS[(off + p.k * per + j) % len(VARIANTS)])
            if j % 4 == 3 and not (kw.get("fmt") == "c" and kw.get("std") == "c99" and kw.get("cc") == "clang"):
                kw["san"] = "asan"
            jobs.append((p, Config(**kw), j))

    def one(job):
        p, cfg, j = job
        try:
            exe, src = p.variant(tool, cfg, j)
        except HarnessError as e:
            return e
        env = dict(gen.SAN_ENV) if cfg.san != "plain" else {}
        return run2([exe], cwd=p.w, env=env), src

    bad = []
    for (p, cfg, j), res in zip(jobs, pmap(one, jobs)):
        if isinstance(res, HarnessError):
            bad.append(res)
            c.count("builds_set_aside")
            c.extra.setdefault("builds_set_aside_why", []).append(str(res)[:1500])
            continue
        rr, src = res
        if rr.timeout:
            c.inconcl("timeout")
            continue
        want = expected(p, cfg)
        auto = any("AUTOLOAD" in d for d in cfg.defs)
        c.count("trace_lines", want.count(b"\n"))
        c.case(sha("%d %r" % (p.k, cfg)), nontrivial=want.count(b"\n") >= 10)
        c.count("format_" + cfg.fmt)
        if rr.out != want or rr.rc != 0:
            files = {"prog.txt": open(src).read(), "lib.c": open(p.w + "/lib.c").read(), "input.txt": p.inputs, "config.txt": repr(cfg), "got.txt": rr.out, "want.txt": want, "err.txt": rr.err}
            c.violation("%s:%s" % (cfg.fmt, re.sub(r"\d+", "#", diff(want, rr.out))[:80]), "%r\nstatus %s\n%s\n%s" % (cfg, rr.rc, diff(want, rr.out), rr.err[-1500:].decode("utf-8", "replace")), files)
    if len(bad) * 2 > len(jobs):
        raise bad[0]
    c.sample({"input": progs[0].inputs[:800], "trace": progs[0].trace[False, False][:600].decode("utf-8", "replace")})
