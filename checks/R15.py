"""R15: the generated code keeps its guarantees with the C libraries and compilers of other systems."""
import os, random, re
from vk import gen, hist
from vk.core import HarnessError, pmap, run, sha
from vk.gen import Config, SAN_ENV, cc_run, plat_flags, uphex
from vk.rbuild import build, build_all, configs, history, min_configs
from vk.tool import Tool
from checks import R04, R05, R07, R10

TECHNIQUE = ("runtime monitoring: the generated code compiled with the platform macros, headers and calls of other systems (musl, Android, FreeBSD, DragonFly, OpenBSD, NetBSD, Solaris, macOS, AIX; a compiler that isn't GCC-like), run through the loader shim; "
             "fault-injected histories judged by the reference models with what each platform offers")
LEVEL_NOTE = "exploration: random histories per platform and format; the platform is emulated by its macros, declarations and calls (AIX: loadquery() over archive members) on top of this system's loader"

PLATS = ["musl", "android", "freebsd", "dragonfly", "openbsd", "netbsd", "sun", "macos", "aix", "othercc"]
DLINFO = {"freebsd", "dragonfly", "netbsd", "sun", "othercc"}      # have dlinfo(); without /proc/self/maps except the last
DLMOPEN = {"sun", "othercc"}
MEMBER = 0x40000                         # AIX: RTLD_MEMBER is among the default flags


def env(plat):
    return {"VK_PLAT": plat}


class Plat:
    """What differs between platforms in the models of R01 and R08."""
    cwds = True
    cwd = None

    def openable(self, fn, flags, got):
        return super().openable(fn, flags, got) if fn in self.libs or not self.search else bool(got)

    search = False

    def opened(self, st, got, fn, flags, ns, want):
        super().opened(st, got, fn, flags, ns and self.plat in DLMOPEN, want)
        if got and self.cur is not None:
            f = self.ld.file.get(self.cur)
            self.seen.setdefault(f, set()).add(self.cwd)

    def step(self, st, line):
        f = line.split()
        if not hasattr(self, "seen"):
            self.seen = {}
        if f[0] == "chdir":
            self.cwd = hist.unhex(f[-1])
        return super().step(st, line)

    def plat_path(self, st):
        p, f = st.path, self.faults
        if self.cur is None:
            if p not in (None, b""):
                self.fail("path", st, "a library path (%r) is reported although no library is loaded" % p[:200])
            return
        fn = self.ld.path[self.cur]
        file = self.ld.file.get(self.cur)
        ptrs = any(st.snap.ptrs if st.snap else ())
        if p in (None, b""):
            if self.plat in DLINFO and not (f.get("dlinfo") or f.get("lname")):
                self.fail("path", st, "no path is reported for the loaded library %r" % fn)
            elif self.plat != "aix" and ptrs and not (f.get("dladdr") or f.get("fname")):
                self.fail("path", st, "no path is reported although a symbol of the library is loaded")
            elif self.plat == "aix" and ptrs and not f.get("lname") and not any(e[0] == "loadqueryfault" or e[:2] == ["loadquery", "full"] for e in st.ev):
                self.fail("path", st, "no path is reported although a symbol of the library is loaded")
            return
        if re.fullmatch(rb"/p+(\.a\(m\.o\))?", p) and p[:1] == b"/" and 3 in (f.get("lname"), f.get("fname")):
            return
        if p == b"/usr/lib/vk-not-this.a(shr.o)":
            self.fail("path", st, "the reported path comes from a failed loadquery()")
            return
        if file is None or not os.path.exists(file):
            return
        if p.startswith(b"/"):
            ok = os.path.exists(p) and os.path.samefile(p, file)
        else:
            # as it was requested or found, from the directory that was current then
            if fn.startswith(b"/") and not self.orphans:
                self.fail("path", st, "the reported path %r is relative, the request wasn't" % p[:300])
            ok = any(os.path.exists(os.path.join(d, p)) and os.path.samefile(os.path.join(d, p), file) for d in self.seen.get(file, ()) if d)
        if not ok:
            self.fail("path", st, "the reported path is %r, the loaded file is %r (requested: %r)" % (p[:300], file[:300], fn[:300]))
        else:
            self.paths_ok = getattr(self, "paths_ok", 0) + 1


def model(base, plat, w, find=False):
    cls = type(base.__name__ + plat, (Plat, base), dict(plat=plat, search=find, cwd=w.encode(), minflags=hist.RTLD_LAZY | (MEMBER if plat == "aix" else 0)))
    return cls


def tree(c, b, tag, plat):
    w, files, dirs = R07.tree(c, b, tag)
    if plat == "aix":
        for rel in ("d1/ar%s.a(shr_64.o)" % tag, "d2/ar%s.a(shr_64.o)" % tag, "d1/sub dir/x (1).a(m.so)", "d2/none.a.so"):
            gen.simple_lib(c, os.path.join(w, rel), b["symobjs"], "P" + sha(rel + tag))
            files += [rel] * 4
    return w, files, dirs


def path_faults(r, plat, sc):
    """what the system's own way to find the path may report: nothing, too much"""
    out = []
    for l in sc:
        if l.split()[0] == "path" and r.random() < 0.3:
            k = r.choice(["lname"] if plat == "aix" else ["lname", "fname"] if plat in DLINFO else ["fname"])
            out += ["fault %s %d" % (k, r.choice([1, 2, 3, 3])), l, "fault %s 0" % k]
        else:
            out.append(l)
    return out


def setflags(b):
    cfg = b["cfg"]
    if cfg.plat == "aix" and not any("DEFAULT_FLAGS=" in d for d in cfg.defs):
        b["flags"] |= MEMBER
    return b


def made(c, tool, r, cfgs, ks, driver, builder=None):
    """builds everything; what compiles for this system as it is, but not with the other platform's macros, is a violation"""
    builds = build_all(c, tool, r, cfgs, ks=ks, driver=driver, builder=builder)
    have = {b["k"] for b in builds}
    for k, cfg in zip(ks, cfgs):
        if k not in have:
            plain = Config(**dict(cfg.__dict__, plat=None))
            try:
                (builder or build)(c, tool, random.Random(k), k + 50000, plain, driver)
            except HarnessError:
                continue                     # T14's business
            why = [x for x in c.extra.get("builds_set_aside_why", []) if "/b%d/" % k in x]
            c.violation("build:%s:%s" % (cfg.plat, cfg.fmt), "does not build on %s: %s\n%s" % (cfg.plat, cfg, "".join(why)[-2500:]), {"why.txt": "".join(why)})
    return builds


def interfaces(c, tool, r):
    jobs = []
    for n, (fmt, base) in enumerate((("c", hist.CModel), ("c++", hist.CxxModel))):
        cfgs = []
        for i, p in enumerate(PLATS):
            for cfg in configs(r, fmt, n=c.n(3, 9), skip=r.randrange(22)) + (configs(r, fmt, n=1, san="asan", skip=r.randrange(22)) if i % 2 == n or p == "aix" else []):
                cfg.plat = p
                if p in ("musl", "netbsd") and cfg.std and not cfg.std.startswith("c++"):
                    cfg.std = cfg.std.replace("c", "gnu", 1) if not cfg.std.startswith("gnu") else cfg.std
                if p == "netbsd" and r.random() < 0.5:
                    cfg.defs = cfg.defs + ["_NETBSD_SOURCE"]
                if cfg.lang == "c++" and p == "othercc":
                    cfg.lang, cfg.std = None, None
                cfgs.append(cfg)
        builds = made(c, tool, r, cfgs, ks=[1000 * n + r.randrange(11) + 11 * k for k in range(len(cfgs))], driver="drv_c.c" if fmt == "c" else "drv_cxx.cpp")
        for b in builds:
            setflags(b)
            p = b["cfg"].plat
            w, files, dirs = tree(c, b, str(b["k"]), p)
            for i in range(c.n(14, 160)):
                e = dict(env(p))
                if i % 2:
                    lp = [r.choice(["d1", "d2", w + "/d1", w + "/d2", "", w + "/dl"]) for _ in range(2)]
                    e["LD_LIBRARY_PATH"] = ":".join(lp)
                    jobs.append((b, R07.script(r, b, w, files, dirs, r.choice([10, 30, 60]), fmt == "c++", ns=p in DLMOPEN), model(base, p, b["w"], True), e))
                else:
                    g = hist.gen_c if fmt == "c" else hist.gen_cxx
                    sc = g(r, b["syms"], b["libs"], r.choice([15, 40, 90]), faults=r.random() < 0.8, errs=0.3, paths=0.3, longerr=r.random() < 0.5, pathfaults=r.random() < 0.5)
                    jobs.append((b, path_faults(r, p, sc) if r.random() < 0.7 else sc, model(base, p, b["w"]), e))
    for n, (fmt, drv, base) in enumerate((("minimal", "drv_min.c", hist.MinModel), ("minimal-c++", "drv_mincxx.cpp", hist.MinCxxModel))):
        cfgs = []
        for p in ("musl", "macos", "aix", "aix", "othercc", "netbsd"):
            cfg, = min_configs(r, fmt, 1, skip=r.randrange(12))
            cfg.plat = p
            if p == "othercc":
                cfg.lang = None
            cfgs.append(cfg)
        builds = made(c, tool, r, cfgs, ks=[3000 + 100 * n + k for k in range(len(cfgs))], driver=drv)
        for b in builds:
            for i in range(c.n(15, 150)):
                jobs.append((b, hist.gen_min(r, b["syms"], b["libs"], r.choice([3, 10, 30]), faults=r.random() < 0.8), model(base, b["cfg"].plat, b["w"]), env(b["cfg"].plat)))

    def one(j):
        b, sc, m, e = j
        return j, history(c, b, sc, ("state", "crash", "handles", "error", "path"), m, env=e)

    ok = 0
    for (b, sc, _, _), res in pmap(one, jobs):
        if res is None:
            continue
        m, steps, _, _ = res
        p = b["cfg"].plat
        ok += getattr(m, "paths_ok", 0)
        c.count("steps_" + p, len(steps))
        c.count("paths_" + p, getattr(m, "paths_ok", 0))
        c.case(sha(repr(sc) + str(b["k"])), nontrivial=m.ld.opens > 0)
    c.extra["paths_confirmed"] = ok
    c.sample({"script": jobs[0][1][:20], "config": repr(jobs[0][0]["cfg"])})


def plugins(c, tool, r):
    cfgs = []
    for i, p in enumerate(("musl", "macos", "aix", "othercc", "freebsd", "netbsd")):
        cfg = r.choice(R10.plugin_configs(12, "asan" if i % 2 else "plain"))
        cfg.prefix = None
        cfg.plat = p
        if p == "othercc":
            cfg.lang = None
        cfgs.append(cfg)
    builds = made(c, tool, r, cfgs, ks=[4000 + k for k in range(len(cfgs))], driver="drv_plugin.c", builder=R10.build)
    jobs = []
    for b in builds:
        setflags(b)
        for i in range(c.n(12, 120)):
            jobs.append((b, R10.script(r, b["syms"], b["libs"], r.choice([2, 6, 20]))))

    def one(j):
        b, sc = j
        text = "\n".join(sc) + "\n"
        return b, sc, text, gen.run_script(b["exe"], b["w"], str(id(sc)), text, san=b["cfg"].san, env=env(b["cfg"].plat))

    for b, sc, text, (res, log) in pmap(one, jobs):
        if res.timeout:
            c.inconcl("timeout")
            continue
        files = {"script.txt": text, "log.txt": log, "config.txt": repr(b["cfg"]) + "\n" + res.text(3000)}

        def fail(aspect, st, msg, files=files):
            c.violation("%s:%s:%s" % (aspect, st.cmd, re.sub(r"[0-9]+", "#", msg)[:60]), "op %d (%s): %s" % (st.n, st.cmd, msg), files)
        m = R10.Model(b, fail)
        steps = R10.parse(log)
        lines = [l for l in sc]
        ops = [l for l in lines if not l.startswith("fault")]
        k = 0
        for l in lines:
            if l.startswith("fault"):
                f = l.split()
                if f[0] == "faultclear":
                    m.fsyms = set()
                elif f[1] == "sym":
                    m.fsyms.add(f[2])
                continue
            if k >= len(steps):
                fail("crash", hist.Step(k, l.split()[0]), "the program ended: %s" % res.text(800))
                break
            if not m.step(steps[k], l):
                break
            k += 1
        if res.rc:
            c.violation("exit:%s" % res.rc, "the program ended with status %s\n%s" % (res.rc, res.text(1500)), files)
        c.count("steps_" + b["cfg"].plat, len(steps))
        c.case(sha(repr(sc) + str(b["k"])), nontrivial=m.loads > 0)


# ---------------------------------------------------------------- library names
def libnames(plat):
    """(C macro with API number, without), make_libname() for three API numbers, extension"""
    if plat == "macos":
        return ["libfoo.1.2.dylib"], lambda n, a: "lib%s.%d.dylib" % (n, a), ".dylib"
    if plat == "aix":
        return ["libfoo.a(shr_64.o)"], lambda n, a: "lib%s.a(shr_64.o)" % n, ".a"
    if plat == "android":
        return ["libfoo.so"], lambda n, a: "lib%s.so" % n, ".so"
    return ["libfoo.so.1.2"], lambda n, a: "lib%s.so.%d" % (n, a), ".so"


NAMES = r'''
#include VK_HEADER
#include <stdio.h>
#include <wchar.h>
static void w(const wchar_t *s) { while (*s) putchar((int)*s++); putchar('\n'); }
int main(void) {
  puts(GDO_LIBNAME(foo, 1.2)); puts(GDO_LIBNAMEA(foo, 1.2)); w(GDO_LIBNAMEW(foo, 1.2));
  puts(GDO_LIBEXT); puts(GDO_LIBEXTA); w(GDO_LIBEXTW);
  puts("plug" GDO_LIBEXT);
#ifdef VK_CXX
  puts(gdo::make_libname("bar9", 0).c_str()); puts(gdo::make_libname("a%sb", 40).c_str()); puts(gdo::make_libname("", 4294967295u).c_str());
#endif
#ifdef VK_RUN
  puts(VK_RUN);
#endif
  return 0; }
'''

# two source files of one program
TU1 = r'''
#include VK_HEADER
#include <stdio.h>
int other(int n);
int other_load(const char *fn);
#ifdef VK_HOOKS
int vk_hooks;
#endif
int main(int argc, char **argv) {
  if (argc > 2) { printf("%d\n", vk_v(1, 4)); return 0; }
  if (argc < 2 || !VK_LOAD(argv[1]) || !other_load(argv[1])) { puts("load"); return 1; }
  vk_o += 2;
  printf("%d %d %d %d %d\n", vk_f(4), vk_v(2, 30, 12), vk_o, other(7), vk_o);
#ifdef VK_HOOKS
  printf("%d\n", vk_hooks);
#else
  puts("4");
#endif
  return 0; }
'''
TU2 = r'''
#include VK_HEADER
int other_load(const char *fn) { (void)fn; return VK_LOAD2; }
int other(int n) { vk_o += 5; return vk_f(n) * 1000 + vk_v(1, n) + vk_w(vk_w(1)); }
'''
LIB = r'''
#include <stdarg.h>
int vk_o = 100;
int vk_f(int a) { return a * 3; }
int vk_w(int a) { return a + 1; }
int vk_v(int n, ...) { va_list ap; int s = 0; va_start(ap, n); while (n-- > 0) s += va_arg(ap, int); va_end(ap); return s; }
'''
WANT = "12 42 102 21010 %d"           # vk_o afterwards


def programs(c, tool, r):
    w = c.mkdir("prog")
    open(w + "/lib.c", "w").write(LIB)
    so = w + "/libvkp.so"
    cc_run(["gcc", "-shared", "-fPIC", "-o", so, w + "/lib.c"], "library")
    h = "int vk_f(int a); int vk_w(int a); int vk_v(int n, ...); extern int vk_o;\n"
    jobs = []
    k = 0
    for p in PLATS + [None]:
        for fmt, variant, defs in (("c", "static", ["GDO_STATIC"]), ("c", "static", ["GDO_STATIC", "GDO_WRAP_FUNCTIONS"]), ("c", "static", ["GDO_STATIC", "GDO_ENABLE_AUTOLOAD"]), ("c", "separate", []), ("c", "separate", ["GDO_WRAP_FUNCTIONS"]),
                                   ("c", "separate", ["GDO_ENABLE_AUTOLOAD_LAZY"]), ("c++", "separate", ["GDO_WRAP_FUNCTIONS"]), ("c++", "separate", []), ("c++", "separate", ["GDO_ENABLE_AUTOLOAD"])):
            k += 1
            jobs.append((k, p, fmt, variant, defs, r.choice(["gcc", "clang"]), r.choice(["-O0", "-O1", "-O2"]) + ("" if fmt != "c" else r.choice(["", " -std=gnu89", " -std=gnu89", " -std=gnu99", " -std=gnu17"]))))

    def one(j):
        k, p, fmt, variant, defs, cc, ol = j
        d = c.mkdir("prog/p%d" % k)
        cxx = fmt == "c++"
        hdr = "x.hpp" if cxx else "x.h"
        res = tool.run(["-", "-format=" + fmt, "-no-date", "-out=" + hdr, "-library=" + so] + (["-separate"] if variant == "separate" else []), stdin=h.encode(), cwd=d)
        if res.rc:
            raise HarnessError("generator fails: " + res.text())
        load = "gdo_load_lib_name_and_symbols(%s)" if not cxx else "gdo_program_load(%s)"
        pre = "static bool gdo_program_load(const char *fn) { static gdo::dl l; return l.load(fn) && l.load_all_symbols(); }\n" if cxx else ""
        l1 = load % "argv[1]"
        l2 = (load % "fn") if variant == "static" else "1"
        ext = ".cpp" if cxx else ".c"
        wrapped = any("WRAP" in x or "AUTOLOAD" in x for x in defs)
        hooks = wrapped and not cxx
        pre0 = "".join("#define GDO_HOOK_%s(...) (vk_hooks++)\n" % f for f in ("vk_f", "vk_v")) if hooks else ""
        pre0 = "#define VK_HOOKS\nextern int vk_hooks;\n" + pre0 if hooks else ""
        if hooks and variant == "separate":
            open(d + "/x.c", "r+").write(pre0 + open(d + "/x.c").read())
        open(d + "/t1" + ext, "w").write(pre0 + TU1.replace("int other(", pre + "int other(", 1).replace("VK_LOAD(argv[1])", l1))
        open(d + "/t2" + ext, "w").write(pre0 + TU2.replace("(void)fn; return VK_LOAD2;", "(void)fn; return %s;" % l2))
        ccx = {"gcc": ("gcc", "g++"), "clang": ("clang", "clang++")}[cc][cxx]
        base = [ccx] + plat_flags(p) + ol.split() + [ "-Wall", "-Wextra", "-I" + d, '-DVK_HEADER="%s"' % hdr, "-DGDO_DISABLE_WARNINGS"] + ["-D" + x for x in defs] + (["-Wno-unused-function"] if p == "othercc" else [])
        shim = []
        if p in ("netbsd", "aix"):
            # calls this system's loader doesn't have, or numbers differently
            open(d + "/calls.c", "w").write('#define _GNU_SOURCE\n#include <dlfcn.h>\nvoid *__wrap_dlopen(const char *f, int m) { return dlopen(f, m & ~0x40000); }\nint __wrap_dlinfo(void *h, int r, void *i) { return dlinfo(h, r == 3 ? 2 : -1, i); }\nint loadquery(int f, void *b, unsigned n) { (void)f; (void)b; (void)n; return -1; }\n')
            cc_run(["gcc", "-c", d + "/calls.c", "-o", d + "/calls.o"], "calls")
            shim = [d + "/calls.o"]
        objs, out = [], b""
        srcs = ["t1" + ext, "t2" + ext] + (["x" + ext] if variant == "separate" else [])
        for s in srcs:
            res = run(base + ["-c", d + "/" + s, "-o", d + "/" + s + ".o"], cwd=d)
            if res.rc:
                return j, "does not compile: " + res.text(2000), ""
            out += res.err
            objs.append(d + "/" + s + ".o")
            if shim:
                cc_run(["objcopy", "--redefine-sym=dlinfo=__wrap_dlinfo", "--redefine-sym=dlopen=__wrap_dlopen", objs[-1]], "object")
        res = run([ccx] + objs + shim + ["-o", d + "/prog", "-ldl"], cwd=d)
        if res.rc:
            return j, "does not link: " + res.text(2000), ""
        res = run([d + "/prog", so], cwd=d)
        want = WANT % 107 + "\n4"
        if res.rc or res.out.decode("utf-8", "replace").strip() != want:
            # printf's arguments are evaluated in any order
            m = re.fullmatch(r"12 42 (102|107) 21010 (102|107)\n4", res.out.decode("utf-8", "replace").strip())
            if res.rc or not m:
                return j, "status %s, printed %r instead of %r\n%s" % (res.rc, res.out, want, res.text(500)), ""
        if wrapped and not any("AUTOLOAD" in x for x in defs):
            res = run([d + "/prog", so, "unloaded"], cwd=d)
            if res.rc != -6 or b"vk_v" not in res.err or res.out:
                return j, "a wrapper of a function that isn't loaded: status %s, printed %r %r" % (res.rc, res.out, res.err[:300]), ""
        if p != "othercc" and b"x.h" in out and b"warning:" in out:
            return j, "", "warnings in the generated code:\n" + out.decode("utf-8", "replace")[:2500]
        return j, "", ""

    for j, err, warn in pmap(one, jobs):
        c.case("prog %s" % (j[1:],))
        c.count("programs")
        if err or warn:
            c.violation("program:%s:%s:%s:%s" % (j[1], j[2], j[3], "warnings" if warn else err.split(":")[0][:40]), "platform %s, %s, %s %s %s: %s" % (j[1], j[2], j[3], j[4], j[5:], err or warn), {"what.txt": err or warn})

    # library names
    def names(j):
        p, fmt, sep = j
        d = c.mkdir("prog/n-%s-%s" % (p, fmt.replace("+", "x")))
        cxx = fmt.endswith("++")
        hdr = "x.hpp" if cxx else "x.h"
        res = tool.run(["-", "-format=" + fmt, "-no-date", "-out=" + hdr], stdin=b"int vk_f(int a);\n", cwd=d)
        if res.rc:
            raise HarnessError("generator fails: " + res.text())
        src = d + "/n" + (".cpp" if cxx else ".c")
        open(src, "w").write("#include <stdlib.h>\n" + NAMES)
        cc = "g++" if cxx else "gcc"
        calls = d + "/calls.c"
        open(calls, "w").write("int loadquery(int f, void *b, unsigned n) { (void)f; (void)b; (void)n; return -1; }\n")
        res = run([cc] + plat_flags(p) + ["-w", "-I" + d, '-DVK_HEADER="%s"' % hdr] + (["-DVK_CXX"] if fmt == "c++" else []) + ["-o", d + "/n", src] + (["-x", "c", calls] if p == "aix" and not cxx else []) + ["-ldl"], cwd=d) if not (cxx and p == "aix") else None
        if res is None:
            cc_run(["gcc", "-c", calls, "-o", d + "/calls.o"], "calls")
            res = run([cc] + plat_flags(p) + ["-w", "-I" + d, '-DVK_HEADER="%s"' % hdr] + (["-DVK_CXX"] if fmt == "c++" else []) + ["-o", d + "/n", src, d + "/calls.o", "-ldl"], cwd=d)
        if res.rc:
            return j, None, res.text(1500)
        return j, run([d + "/n"], cwd=d).out.decode("utf-8", "replace").split("\n")[:-1], ""

    for j, got, err in pmap(names, [(p, f, False) for p in PLATS for f in ("c", "c++", "plugin", "minimal", "minimal-c++")]):
        p, fmt, _ = j
        a, mk, ext = libnames(p)
        want = a * 3 + [ext] * 3 + ["plug" + ext]
        if fmt == "c++":
            want += [mk("bar9", 0), mk("a%sb", 40), mk("", 4294967295)]
        c.case("names %s %s" % (p, fmt))
        if got is None:
            c.violation("names:%s:%s:build" % (p, fmt), "platform %s, %s: the library name macros do not compile\n%s" % (p, fmt, err), {"err.txt": err})
        elif got != want:
            c.violation("names:%s:%s" % (p, fmt), "platform %s, %s: library names %s, documented are %s" % (p, fmt, got, want), {"got.txt": "\n".join(got)})
        c.count("library_names", len(want))


def check(c):
    c.rule = ("one case = one history, one two-file program, or one set of library names on one platform; steps and confirmed paths are counted per platform; non-trivial: a library was opened")
    c.assumptions = ["the platform macros, declarations and calls given in harness/plat stand in for the systems themselves", "musl and NetBSD without their extension macros in strict ISO C modes are not covered: they declare neither Dl_info nor dladdr() then (musl), or are covered in GNU modes only",
                     "where only dlinfo() or dladdr() is left, a relative path is one that is right from the directory that was current when the library was loaded"]
    tool = Tool(c)
    r = c.rng
    interfaces(c, tool, r)
    plugins(c, tool, r)
    programs(c, tool, r)
