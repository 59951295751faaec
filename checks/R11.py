"""R11: separate header/body outputs behave like the single file and share one state."""
import os, random, re
from vk import decl, gen, hist, multi, rbuild
from vk.core import HarnessError, pmap, run2, sha
from vk.gen import Config
from vk.tool import Tool
from checks import R04, R05

TECHNIQUE = "runtime monitoring: operation histories distributed over 2-4 source files of one program; after every operation each source file's view of the state is compared with the others' and with the reference model; the single-file program runs the same history and both logs (results, texts, loader calls) are compared; wrapped calls are made from random source files"
LEVEL_NOTE = "exploration: random declarations, histories, faults, numbers and languages of source files, compilers, linkage; C, C++, minimal and plugin formats"


def check(c):
    c.rule = ("one case = one history executed; operations, comparisons between source files, and compared single-file/separate log lines are counted; non-trivial: operations in at least two source files and a library was opened")
    c.assumptions = ["all source files are compiled with the same configuration macros", "GDO_WRAP_VISIBILITY (external wrappers) is used in one source file only", "GDO_STATIC is for C"]
    tool = Tool(c)
    histories(c, tool)
    plugins(c, tool)
    # wrapper functions called from any source file
    R04.drive(c, [dict(v, tus=n) for v, n in zip([dict(fmt="c", defs=["GDO_WRAP_FUNCTIONS"], separate=True, olevel="-O2"), dict(fmt="c", defs=["GDO_WRAP_FUNCTIONS"], separate=True, cc="clang"), dict(fmt="c", defs=["GDO_WRAP_FUNCTIONS"], separate=True, lang="c++"),
                                                  dict(fmt="c++", defs=["GDO_WRAP_FUNCTIONS"], separate=True), dict(fmt="c++", defs=["GDO_WRAP_FUNCTIONS"], separate=True, cc="clang", std="c++20", olevel="-O2"),
                                                  dict(fmt="c++", defs=["GDO_WRAP_FUNCTIONS"], separate=True, prefix="zQ", san="asan")], [3, 2, 2, 3, 2, 3])],
              R04.history, R04.basic, c.n(2, 8), c.n(3, 6), c.n(16, 80))
    R04.drive(c, [dict(v, tus=n) for v, n in zip([dict(fmt="c", defs=["GDO_ENABLE_AUTOLOAD"], separate=True), dict(fmt="c", defs=["GDO_ENABLE_AUTOLOAD_LAZY"], separate=True, olevel="-O2"), dict(fmt="c++", defs=["GDO_ENABLE_AUTOLOAD"], separate=True),
                                                  dict(fmt="c++", defs=["GDO_ENABLE_AUTOLOAD", "GDO_ENABLE_AUTOLOAD_LAZY"], separate=True, cc="clang")], [3, 2, 3, 2])],
              R05.history, R05.basic, c.n(2, 8), c.n(2, 4), c.n(16, 80), base=1000)


def make(c, tool, r, k):
    w = c.mkdir("m%d" % k)
    mode = ["shared-c", "shared-c++", "static-c", "shared-c", "shared-c++", "static-min", "shared-c", "static-c"][k % 8]
    syms = rbuild.names_for(r, r.randrange(11))
    syms = [s for s in syms if s.is_func] + [s for s in syms if not s.is_func]
    libs = gen.libset(c, r, w, syms, "m%d" % k)
    fmt = "c++" if mode == "shared-c++" else "minimal" if mode == "static-min" else "c"
    san = r.choice(["plain", "plain", "asan"])
    n = r.choice([2, 2, 3, 4])
    prefix = r.choice([None, None, None, "My_Lib"])
    P = gen.rename("GDO_", prefix) if prefix else "GDO_"
    d = r.choice([[], [], ["DISABLE_ALIASING"], ["WRAP_FUNCTIONS"], ["ENABLE_AUTOLOAD"], ["ENABLE_AUTOLOAD_LAZY"]]) if fmt != "minimal" else []
    if fmt == "c++" and any(s.type.__class__.__name__ == "Fn" and "volatile" in s.canon() for s in syms):
        d = [x for x in d if "ALIAS" in x]
    d = d + ["DISABLE_WARNINGS"]
    if mode.startswith("static"):
        d.append("STATIC")
    lib = libs[r.choice("AABM")].path
    defs = [P + x for x in d]
    opts = ["-library=" + lib]
    if r.random() < 0.3:
        opts, defs = [], defs + ['%sDEFAULT_LIB="%s"' % (P, lib)]
    base = dict(fmt=fmt, prefix=prefix, defs=defs, opts=opts + r.choice([[], ["-no-pragma-once"], ["-line"]]), san=san, param=r.choice(["create", "skip"]) if len(d) <= 1 + mode.startswith("static") else "create")
    sep = mode.startswith("shared")
    cfg0 = Config(separate=sep, cc=r.choice(["gcc", "clang"]), olevel=r.choice(["-O0", "-O1", "-O2"]), std=r.choice([None, "c99", "c++11"]), **base)
    hdr, body = gen.generate(c, tool, w, syms, cfg0, name=r.choice(["hdr", "a-b", "x.y"]))
    parts = []
    for i in range(n):
        cxx = fmt == "c++" or mode == "shared-c" and r.random() < 0.3
        cfg = Config(separate=sep, cc=r.choice(["gcc", "clang"]), olevel=r.choice(["-O0", "-O1", "-O2"]), std=r.choice([None, "c++11", "c++20"]) if cxx else r.choice([None, "c99", "gnu17"]), **base)
        parts.append(multi.Part(cfg, syms, hdr, cxx, 0 if sep else i))
    b = dict(k=k, w=w, mode=mode, parts=parts, names=[s.name for s in syms], libs=libs, byp={l.path: l for l in libs.values()}, dflt=lib, san=san, single=None)
    # the same in one file, used from one source file
    try:
        w1 = c.mkdir("s%d" % k)
        cfg1 = Config(separate=False, cc=r.choice(["gcc", "clang"]), **base)
        cfg1.defs = [x for x in cfg1.defs if not x.endswith("_STATIC") or fmt != "c++"]
        h1, _ = gen.generate(c, tool, w1, syms, cfg1, name="single")
        b["single"] = multi.build(w1, [multi.Part(cfg1, syms, h1, fmt == "c++", 0)], [[0]], [], b["names"], san=san)
        b["w1"] = w1
    except HarnessError as e:
        raise HarnessError("single file: %s" % e)
    try:
        b["exe"] = multi.build(w, parts, [[i] for i in range(n)], [(body, cfg0, fmt == "c++")] if body else [], b["names"], san=san)
    except HarnessError as e:
        e.single_ok = True
        e.what = "%s, %d source files: %r" % (mode, n, cfg0)
        raise
    return b


def histories(c, tool):
    r = c.rng
    seeds = [(k, r.getrandbits(64)) for k in range(c.n(24, 120))]

    def one_build(x):
        try:
            return make(c, tool, random.Random(x[1]), x[0])
        except HarnessError as e:
            return e
    built = pmap(one_build, seeds)
    work, bad = [], 0
    for b in built:
        if isinstance(b, HarnessError):
            if getattr(b, "single_ok", False):
                # one file works: so the separate files must, too
                c.violation("build:" + sha(re.sub(r"/tmp\S+|\d+", "#", str(b)[-600:]))[:8], "the single-file output works, this does not build: %s\n%s" % (b.what, str(b)[:3000]))
            bad += 1
            c.count("builds_set_aside")
            c.extra.setdefault("builds_set_aside_why", []).append(str(b)[:1200])
            continue
        for _ in range(c.n(32, 250)):
            n = r.choice([6, 15, 30, 60])
            f = r.random() < 0.6
            names = b["names"]

            def one():
                fmt = b["parts"][0].cfg.fmt
                if fmt == "c":
                    return hist.gen_c(r, names, b["libs"], n, faults=f, errs=0.35, paths=0.06, ns=0.03)
                if fmt == "c++":
                    return hist.gen_cxx(r, names, b["libs"], n, faults=f, errs=0.35, paths=0.06, ns=0.03)
                return hist.gen_min(r, names, b["libs"], n, faults=f)
            np = len(b["parts"])
            if b["mode"].startswith("shared"):
                s, cur = [], 0
                for l in one():
                    if r.random() < 0.6:
                        cur = r.randrange(np)
                    s.append(l if l.startswith("fault") else "@%d %s" % (cur, l))
            else:
                todo, s, cur = [one() for _ in range(np)], [], 0
                while any(todo):
                    if r.random() < 0.4 or not todo[cur]:
                        cur = r.choice([i for i, t in enumerate(todo) if t])
                    l = todo[cur].pop(0)
                    s.append(l if l.startswith("fault") else "@%d %s" % (cur, l))
            if r.random() < 0.1:
                s.append("@%d exit %d" % (r.randrange(np), r.randrange(3)))
            work.append((b, s))
    if bad * 2 > len(built):
        raise [b for b in built if isinstance(b, HarnessError)][0]

    def one(x):
        b, s = x
        res = [gen.run_script(b["exe"], b["w"], "m%d" % id(s), "\n".join(s) + "\n", san=b["san"], timeout=60)]
        if b["mode"].startswith("shared"):
            res.append(gen.run_script(b["single"], b["w1"], "m%d" % id(s), "\n".join(re.sub(r"^@\d+", "@0", l) for l in s) + "\n", san=b["san"], timeout=60, cwd=b["w"]))
        return res

    for (b, s), rr in zip(work, pmap(one, work)):
        if any(x[0].timeout for x in rr):
            c.inconcl("timeout")
            continue
        res, log = rr[0]
        if res.rc in (90, 91, 92, 93, 95, 96, 97):
            raise HarnessError("driver protocol error %d: %s" % (res.rc, log[-500:]))
        files = lambda: dict({"script.txt": "\n".join(s), "log.txt": log, "config.txt": "\n".join(repr(p.cfg) + (" c++" if p.cxx else "") for p in b["parts"]) + "\n%s" % b["names"] + res.text(2000)}, **({"single.log": rr[1][1]} if len(rr) > 1 else {}))

        def report(aspect, st, msg):
            c.violation("%s:%s:%s" % (b["mode"], aspect, re.sub(r"0x[0-9a-f]+|\d+|'[^']*'", "#", msg)[:60]), "%s, %d source files: op %s: %s" % (b["mode"], len(b["parts"]), st and (st.n, st.cmd), msg), files())
        models = {}
        for p in b["parts"]:
            if p.state not in models:
                models[p.state] = multi.MODELS[p.cfg.fmt][1](b["names"], b["byp"], b["dflt"], report, hist.RTLD_LAZY)
                models[p.state].coload = b["mode"].startswith("static")
        judged, compared = multi.judge(b["parts"], models, s, log, report)
        want = int(s[-1].split()[2]) if "exit" in s[-1] else 0
        if res.rc != want:
            report("crash", None, "the program ended with status %s\n%s" % (res.rc, res.text(1500)))
        used = {l[:2] for l in s if l[0] == "@"}
        c.case(sha(repr(s) + str(b["k"])), nontrivial=len(used) > 1 and any(m.ld.opens for m in models.values()))
        c.count("operations_judged", judged)
        c.count("source_file_comparisons", compared)
        if len(rr) > 1:
            a, z = norm(log), norm(rr[1][1])
            c.count("single_file_lines_compared", len(z))
            if a != z:
                j = next((j for j in range(min(len(a), len(z))) if a[j] != z[j]), min(len(a), len(z)))
                report("single", None, "separate files differ from the single file at line %d: %r, single file: %r (after %r)" % (j, a[j:j + 1], z[j:j + 1], a[max(0, j - 3):j]))
    if work:
        c.sample({"script": work[0][1][:14], "mode": work[0][0]["mode"], "source_files": [repr(p.cfg) for p in work[0][0]["parts"]]})


def norm(log):
    """what must be the same in both programs: addresses only up to being null"""
    res = []
    for l in log.splitlines():
        if l.startswith("V "):
            f = l.split(" ")
            if f[1] != "0":
                continue
            l = " ".join(f[:6] + ["0" if p == "(nil)" else "1" for p in f[6:]])
        elif l.startswith("O "):
            l = " ".join(l.split(" ")[:3])
        else:
            l = re.sub(r"0x[0-9a-f]+", "#", l)
        if l.startswith(("E file", "T-")) or re.match(r"O \d+ (fin\w*|end)$", l):
            continue
        res.append(l)
    return res


PLUG = r'''
#include "plug.h"
#include <stdio.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
gdo_plugin_t *zz_load%(i)d(const char **f, size_t n) { return gdo_load_plugins(f, n); }
void zz_show%(i)d(gdo_plugin_t *p) {
  for (size_t i = 0; i < p->num; i++) { printf(" %%s", p->list[i].filename);%(show)s }
  puts("");
}
void zz_rel%(i)d(gdo_plugin_t *p) { gdo_release_plugins(p); }
#ifdef __cplusplus
}
#endif
'''


def plugins(c, tool):
    """the plugin loader in separate files, used from several"""
    r = c.rng
    jobs = [(i, r.getrandbits(64)) for i in range(c.n(8, 40))]

    def one(j):
        k, seed = j
        rr = random.Random(seed)
        w = c.mkdir("plug%d" % k)
        syms = rbuild.names_for(rr, rr.randrange(11))[:6]
        libs = gen.libset(c, rr, w, syms, "p%d" % k)
        static = rr.random() < 0.3
        cfg = Config(fmt="plugin", separate=not static, defs=["GDO_STATIC"] if static else [])
        hdr, body = gen.generate(c, tool, w, syms, cfg, name="plug")
        open(w + "/vk_prelude.h", "w").write(decl.PRELUDE)
        objs = []
        n = rr.choice([2, 3])
        show = "".join(' printf("%%d", p->list[i].ptr.%s != NULL);' % s.name for s in syms)
        files = []
        for i in range(n):
            x = not static and rr.random() < 0.3
            f = w + "/u%d%s" % (i, ".cpp" if x else ".c")
            open(f, "w").write(PLUG % dict(i=i, show=show))
            files.append(f)
        main = w + "/main.c"
        good = [libs["A"].path, libs["B"].path, libs["M"].path, libs["N"].path]
        open(main, "w").write("#include <stddef.h>\n#include <stdio.h>\n" + "".join("void *zz_load%d(const char **, size_t); void zz_show%d(void *); void zz_rel%d(void *);\n" % (i, i, i) for i in range(n))
                              + "int main(void) { const char *f[] = { %s }; void *p[%d];\n" % (", ".join('"%s"' % g for g in good), n)
                              + "".join("p[%d] = zz_load%d(f, 4);\n" % (i, i) for i in range(n))
                              + "".join("zz_show%d(p[%d]);\n" % (i, (i + 1) % n) for i in range(n)) + "".join("zz_rel%d(p[%d]);\n" % (i, (i + 1) % n) for i in range(n)) + "return 0; }\n")
        for f in files + [main] + ([body] if body else []):
            cc = rr.choice([("gcc", "g++"), ("clang", "clang++")])[f.endswith(".cpp")]
            rc = run2([cc, "-w", "-g", "-fsanitize=address", "-include", w + "/vk_prelude.h", "-I" + w, "-c", f, "-o", f + ".o"] + ["-D" + d for d in cfg.defs])
            if rc.rc:
                return "does not compile", rc, w, None
            objs.append(f + ".o")
        rc = run2(["g++", "-fsanitize=address"] + objs + ["-o", w + "/p.exe", "-ldl"])
        if rc.rc:
            return "does not link", rc, w, None
        rc = run2([w + "/p.exe"], cwd=w, env={"ASAN_OPTIONS": "detect_leaks=1:exitcode=99"})
        want = "".join(" %s%s" % (libs[x].path, "".join(str(int(libs[x].openable and s.name in libs[x].syms)) for s in syms)) for x in "ABMN")
        return "runs", rc, w, (want + "\n") * n

    for (k, _), (stage, rc, w, want) in zip(jobs, pmap(one, jobs)):
        if rc.timeout:
            c.inconcl("timeout")
            continue
        if rc.rc or want is not None and rc.out.decode() != want:
            c.violation("plugin:" + stage, "plugin output used from several source files: %s: %s\nexpected %r" % (stage, rc.text(2500), want))
            continue
        c.case("plugin%d" % k)
        c.count("plugin_programs")
