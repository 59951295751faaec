"""Generates code with the real tool, builds the libraries it loads and the driver programs."""
import os, re, shutil
from . import decl
from .core import VERIF, HarnessError, run2, sha

HARNESS = os.path.join(VERIF, "harness")
WRAPPED = ("dlopen", "dlmopen", "dlsym", "dlclose", "dlerror", "dlinfo", "dladdr", "atexit", "fopen", "malloc", "calloc", "realloc", "strdup")
SAN = {"plain": [], "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g"],
       "msan": ["-fsanitize=memory", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g"]}
SAN_ENV = {"ASAN_OPTIONS": "exitcode=99:detect_leaks=1:abort_on_error=0:detect_stack_use_after_return=1:symbolize=0:fast_unwind_on_malloc=1",
           "UBSAN_OPTIONS": "halt_on_error=1:exitcode=98:print_stacktrace=0", "MSAN_OPTIONS": "exitcode=99:symbolize=0:intercept_strndup=1"}


def san_flags(cfg):
    """clang's check of called function types takes f() and f(void) for different types"""
    return SAN[cfg.san] + (["-fno-sanitize=function"] if cfg.cc == "clang" and cfg.san == "asan" else [])


def rename(line, pfx):
    """the documented prefix renaming, as an independent reference"""
    up = "".join(ch.upper() if ch.isalnum() and ch.isascii() else "_" for ch in pfx)
    lo = "".join(ch.lower() if ch.isalnum() and ch.isascii() else "_" for ch in pfx)

    def one(m):
        w = m.group(0)
        if w == "gdo":
            return lo
        for a, b in (("GDO_", up + "_"), ("gdo_", lo + "_")):
            if w.startswith(a):
                return b + w[4:]
            if w.startswith("_" + a):
                return "_" + b + w[5:]
        return w
    return re.sub(r"[A-Za-z0-9_]+", one, line)


def redirect(obj, more=()):
    """loader calls of one object file go to the shim (not those of sanitizer runtimes)"""
    cc_run(["objcopy"] + ["--redefine-sym=%s=__wrap_%s" % (f, f) for f in WRAPPED + tuple(more)] + [obj], "object")


def uphex(s):
    """script token of a string argument"""
    if s is None:
        return "~"
    return "x" + (s if isinstance(s, bytes) else s.encode("utf-8", "surrogateescape")).hex()


class Lib:
    """A library (or something that cannot be opened) a history may name."""

    def __init__(self, path, kind, syms=(), now_ok=True):
        self.path, self.kind, self.syms, self.now_ok = path, kind, frozenset(syms), now_ok
        self.openable = kind == "lib"


def cc_run(argv, what, timeout=300, **kw):
    r = run2(argv, timeout=timeout, **kw)
    if r.rc != 0:
        raise HarnessError("%s does not build: %s\n%s" % (what, " ".join(map(str, argv)), r.text(4000)))
    return r


def simple_lib(c, path, syms, salt, undefined=False, san="plain"):
    """Library that defines the given symbols, whatever their types: only addresses matter."""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    src = ["#include <stddef.h>", "int vk_salt_%s = 1;" % salt]
    for i, s in enumerate(syms):
        if s.is_func:
            src.append("int vki_%d(void) __asm__(\"%s\"); __attribute__((visibility(\"default\"))) int vki_%d(void) { return %d; }" % (i, s.name, i, i))
        else:
            src.append("extern char vki_%d[64] __asm__(\"%s\"); __attribute__((visibility(\"default\"))) char vki_%d[64] = {%d};" % (i, s.name, i, i + 1))
    if undefined:
        src.append("extern int vk_nowhere_defined(void); int vk_use_nowhere(void) { return vk_nowhere_defined(); }")
    f = c.path("lib-%s.c" % sha(path + salt))
    open(f, "w").write("\n".join(src) + "\n")
    tmp = path + ".tmp%d" % len(src)
    cc_run(["gcc", "-O0", "-w", "-shared", "-fPIC", "-Wl,-z,lazy", "-o", tmp, f], "library")
    os.replace(tmp, path)
    return path


def libset(c, r, d, syms, tag):
    """The libraries of one declaration set: {key: Lib}."""
    d = os.path.join(d, "libs")
    os.makedirs(d, exist_ok=True)
    L = {}
    allnames = [s.name for s in syms]
    L["A"] = Lib(simple_lib(c, d + "/libvka%s.so" % tag, syms, "A"), "lib", allnames)
    L["B"] = Lib(simple_lib(c, d + "/sub dir/libvkb%s.so.2" % tag, list(reversed(syms)), "B"), "lib", allnames)
    k = r.randint(1, max(1, len(syms) // 3))
    missing = set(r.sample(allnames, min(k, len(allnames))))
    L["M"] = Lib(simple_lib(c, d + "/libvkm%s.so" % tag, [s for s in syms if s.name not in missing], "M"), "lib", set(allnames) - missing)
    L["O"] = Lib(simple_lib(c, d + "/libvko%s.so" % tag, [], "O"), "lib", [])
    L["U"] = Lib(simple_lib(c, d + "/libvku%s.so" % tag, syms, "U", undefined=True), "lib", allnames, now_ok=False)
    p = d + "/libvkz%s.so" % tag
    open(p, "w").write("this is not a library %s%n\n")
    L["Z"] = Lib(p, "bad")
    L["N"] = Lib(d + "/no such file %s %n.so", "none")
    L["D"] = Lib(d, "bad")
    L["L"] = Lib("/" + "long%s" * 2500, "none")          # far longer than any path or buffer
    L["R"] = Lib("rel_does_not_exist.so", "none")
    return L


class Config:
    """One way to generate and compile the code."""

    def __init__(self, **kw):
        self.fmt = "c"
        self.separate = False
        self.param = "create"
        self.prefix = None
        self.defs = []            # -D at compile time
        self.opts = []            # further tool options
        self.cc = "gcc"
        self.lang = None          # "c++": use C output from a C++ program
        self.std = None
        self.san = "plain"
        self.olevel = "-O1"
        self.inc = None           # further include directory
        self.plat = None          # macros of another platform (harness/plat)
        self.__dict__.update(kw)

    def __repr__(self):
        return " ".join("%s=%r" % kv for kv in sorted(self.__dict__.items()))


def generate(c, tool, w, syms, cfg, name="vkhdr"):
    """Runs the tool; returns (header path, body path or None)."""
    os.makedirs(w, exist_ok=True)
    cxx = cfg.fmt in ("c++", "minimal-c++")
    hdr = name + (".hpp" if cxx else ".h")
    args = ["-", "-format=" + cfg.fmt, "-param=" + cfg.param, "-no-date", "-out=" + hdr] + (["-separate"] if cfg.separate else []) + \
           (["-prefix=" + cfg.prefix] if cfg.prefix else []) + list(cfg.opts)
    r = tool.run(args, stdin=decl.plain_text(syms, names=(cfg.param != "create")).encode(), cwd=w)
    if r.rc != 0:
        raise HarnessError("generator fails: %s\n%s" % (args, r.text()))
    body = None
    if cfg.separate:
        body = os.path.join(w, name + (".cpp" if cxx else ".c"))
    return os.path.join(w, hdr), body


def tables(syms, cfg, rawptr="GDO_RAWPTR_%s", nums=True):
    """vk_tables.inc (text for the default prefix)"""
    o = ['#ifdef __cplusplus\nextern "C" {\n#endif', "extern const char *const vk_names[];", "const char *const vk_names[] = {"]
    o += ['  "%s",' % s.name for s in syms]
    o += ["  0 };", "#ifdef __cplusplus\n}\n#endif"]
    if nums:
        o += ["static const int vk_nums[] = {"] + ["  GDO_LOAD_%s," % s.name for s in syms] + ["  GDO_ENUM_LAST };"]
    o += ["enum { VK_COUNT = %d };" % len(syms), "static uintptr_t vk_ptr(int i) {", "  switch (i) {"]
    o += ["  case %d: return (uintptr_t)%s;" % (i, rawptr % s.name) for i, s in enumerate(syms)]
    o += ["  } return 0; }", ""]
    return "\n".join(o)


def plat_flags(plat):
    """the macros (and headers) another platform has"""
    if not plat:
        return []
    d = os.path.join(HARNESS, "plat")
    f = ["-DVKP_" + plat.upper(), "-include", os.path.join(d, "prelude.h")]
    return f + (["-I" + d] if plat == "aix" else ["-I" + os.path.join(d, "netbsd")] if plat == "netbsd" else [])


def build_driver(c, w, cfg, driver, syms, hdr, body, tables_text=None, extra=()):
    """Compiles driver + generated code + shim; returns the executable."""
    cxx = driver.endswith(".cpp") or cfg.lang == "c++"
    ccx = {"gcc": ("gcc", "g++"), "clang": ("clang", "clang++")}[cfg.cc][cxx]
    plain_c = {"gcc": "gcc", "clang": "clang"}[cfg.cc]
    open(os.path.join(w, "vk_prelude.h"), "w").write(decl.PRELUDE)
    text = open(os.path.join(HARNESS, driver)).read()
    tab = tables_text if tables_text is not None else tables(syms, cfg)
    if cfg.prefix:
        text = "\n".join(rename(l, cfg.prefix) for l in text.split("\n"))
        names = {s.name for s in syms}
        tab = re.sub(r"\bGDO_(RAWPTR|LOAD|PTR|ENUM)_", lambda m: rename("GDO_", cfg.prefix) + m.group(1) + "_", tab)
        tab = tab.replace("gdo_hndl", rename("gdo_hndl", cfg.prefix)).replace("gdo::", rename("gdo", cfg.prefix) + "::")
    drv = os.path.join(w, "drv" + (".cpp" if cxx else ".c"))
    open(drv, "w").write(text)
    open(os.path.join(w, "vk_tables.inc"), "w").write(tab)
    flags = plat_flags(cfg.plat) + [cfg.olevel, "-w", "-include", os.path.join(w, "vk_prelude.h"), "-I" + w, "-I" + HARNESS] + SAN[cfg.san]
    flags += ["-D" + d for d in cfg.defs]
    if cfg.inc:
        flags += ["-I" + cfg.inc]
    cflags = list(flags)
    if cfg.std:
        flags.append("-std=" + cfg.std)
        if not cxx:
            cflags.append("-std=" + cfg.std)
    jobs = [[ccx] + flags + ['-DVK_HEADER="%s"' % os.path.basename(hdr), "-c", drv, "-o", drv + ".o"]]
    objs = [drv + ".o"]
    if body:
        jobs.append(([ccx] + flags if body.endswith(".cpp") else [plain_c] + cflags) + ["-c", body, "-o", body + ".o"])
        objs.append(body + ".o")
    jobs += [([ccx] + flags if e.endswith(".cpp") else [plain_c] + cflags) + ["-c", e, "-o", e + ".o"] for e in extra]
    objs += [e + ".o" for e in extra]
    client = list(objs)
    so = os.path.join(w, "shim.o")
    jobs.append([plain_c, "-O1", "-w", "-I" + HARNESS, "-c", os.path.join(HARNESS, "shim.c"), "-o", so] + SAN[cfg.san])
    objs.append(so)
    for j in jobs:
        try:
            cc_run(j, "driver (%s)" % cfg)
        except HarnessError:
            # the handle's members are no documented interface
            if driver != "drv_c.c" or drv not in j:
                raise
            cc_run(j[:1] + ["-DVK_NO_ERRBUF"] + j[1:], "driver (%s)" % cfg)
    for o in client:
        redirect(o)
    exe = os.path.join(w, "drv.exe")
    cc_run([ccx] + SAN[cfg.san] + objs + ["-o", exe, "-ldl", "-Wl,-z,lazy"], "driver link (%s)" % cfg)
    return exe


def run_script(exe, w, ident, script, san="plain", env=None, cwd=None, timeout=60, pre=()):
    """Executes a script; returns (Res, log text)."""
    sf, lf = os.path.join(w, "s%s.txt" % ident), os.path.join(w, "l%s.txt" % ident)
    open(sf, "w").write(script)
    if os.path.exists(lf):
        os.unlink(lf)
    e = {"VK_LOG": lf}
    if san != "plain":
        e.update(SAN_ENV)
    e.update(env or {})
    r = run2(list(pre) + [exe, sf], cwd=cwd or w, env=e, timeout=timeout, stdin=None)
    log = open(lf, encoding="utf-8", errors="surrogateescape").read() if os.path.exists(lf) else ""
    os.unlink(sf)
    if os.path.exists(lf):
        os.unlink(lf)
    return r, log
