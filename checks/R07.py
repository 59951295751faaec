"""R07: the reported library path is the loaded file, and never a stale one."""
import os
from vk import gen, hist
from vk.core import pmap, sha
from vk.gen import Config, uphex
from vk.rbuild import build, build_all, configs, history
from vk.tool import Tool

TECHNIQUE = "runtime monitoring: path queries in fault-injected histories with absolute, relative, linked and searched names and directory changes, compared with the file that is mapped according to /proc/self/maps (read by the loader shim at load time)"
LEVEL_NOTE = "exploration: C and C++ interfaces, random histories over about 30 names per configuration; both the PROCMAP_QUERY and the text parser branch are compiled (the former with a stand-in for newer kernel headers)"

FAKE_FS = """#include_next <linux/fs.h>
#ifndef PROCMAP_QUERY
#include <linux/ioctl.h>
#include <linux/types.h>
enum { PROCMAP_QUERY_VMA_READABLE = 1, PROCMAP_QUERY_VMA_WRITABLE = 2, PROCMAP_QUERY_VMA_EXECUTABLE = 4, PROCMAP_QUERY_VMA_SHARED = 8, PROCMAP_QUERY_COVERING_OR_NEXT_VMA = 16, PROCMAP_QUERY_FILE_BACKED_VMA = 32 };
struct procmap_query { __u64 size; __u64 query_flags; __u64 query_addr; __u64 vma_start; __u64 vma_end; __u64 vma_flags; __u64 vma_page_size; __u64 vma_offset; __u64 inode; __u32 dev_major; __u32 dev_minor; __u32 vma_name_size; __u32 build_id_size; __u64 vma_name_addr; __u64 build_id_addr; };
#define PROCMAP_QUERY _IOWR('f', %d, struct procmap_query)
#endif
"""


class PathC(hist.CModel):
    cwds = True

    def openable(self, fn, flags, got):
        return bool(got)                    # where names are found is the loader's business


class PathCxx(hist.CxxModel):
    cwds = True

    def openable(self, fn, flags, got):
        return bool(got)


def tree(c, b, tag):
    """files, links and directories; returns the names a load may use and directories"""
    w = os.path.join(b["w"], "p")
    order = b["symobjs"]
    libs = {}

    def mk(rel, **kw):
        libs[rel] = gen.simple_lib(c, os.path.join(w, rel), order, "P" + sha(rel + tag), **kw)

    mk("d1/libx%s.so" % tag)
    mk("d2/libx%s.so" % tag)
    mk("d1/sub dir/liby%s.so" % tag)
    mk("%%s%%n \xe9\u4e16/lib z%s .so" % tag)
    mk("d2/lib(deleted)%s.so (deleted)" % tag)
    mk("d2/t\tab%s.so" % tag)
    mk("d1/e%s" % tag)
    deep = "deep/" + "/".join("x" * 200 for _ in range(14))
    mk(deep + "/lib%s.so" % tag)
    # linked to an address other than zero, as prelinked libraries are
    pre = "d1/pre%s.so" % tag
    mk(pre)
    src = c.path("lib-%s.c" % sha(os.path.join(w, pre) + "P" + sha(pre + tag)))
    gen.cc_run(["gcc", "-O0", "-w", "-shared", "-fPIC", "-Wl,-z,lazy", "-Wl,-Ttext-segment=0x%x" % 0x10000000, "-o", os.path.join(w, pre), src], "library")
    # a mapping that starts with the dynamic section
    dyn = "d2/dyn%s.so" % tag
    mk(dyn)
    src = c.path("lib-%s.c" % sha(os.path.join(w, dyn) + "P" + sha(dyn + tag)))
    gen.cc_run(["gcc", "-O0", "-w", "-shared", "-fPIC", "-nostdlib", "-Wl,-z,norelro", "-Wl,-z,lazy", "-Wl,--section-start=.dynamic=0x20000", "-o", os.path.join(w, dyn), src], "library")
    os.symlink("d1/libx%s.so" % tag, os.path.join(w, "link%s.so" % tag))
    os.symlink("../link%s.so" % tag, os.path.join(w, "d2/link2%s.so" % tag))
    os.symlink("d2", os.path.join(w, "dl"))
    libs["link%s.so" % tag] = os.path.join(w, "link%s.so" % tag)
    libs["d2/link2%s.so" % tag] = 1
    libs["dl/libx%s.so" % tag] = 1
    dirs = ["", "d1", "d2", "d1/sub dir", "%s%n \xe9\u4e16", "dl", "deep"]
    return w, sorted(libs), dirs


def names(r, w, files, cwd):
    """one way to name a file from directory cwd (relative to w)"""
    f = r.choice(files)
    full = os.path.join(w, f)
    k = r.randrange(12)
    if k < 2:
        return full
    if k == 2:
        return w + "//./" + f
    if k == 3:
        return os.path.join(w, "d1", "..", f)
    if k < 8:
        rel = os.path.relpath(os.path.join(os.path.realpath(w), f), os.path.realpath(os.path.join(w, cwd)))
        return rel if "/" in rel else "./" + rel
    if k == 8:
        rel = os.path.relpath(os.path.join(os.path.realpath(w), f), os.path.realpath(os.path.join(w, cwd)))
        return ".//" + rel
    return os.path.basename(f)               # found with LD_LIBRARY_PATH, or not


def script(r, b, w, files, dirs, n, cxx, ns=True, maps=False):
    out, cwd, ns = [], "", 0 if ns else 6
    p = lambda cmd, rest="": out.append("%s %s%s" % (cmd, "0 " if cxx else "", rest))
    chdir = lambda d: p("chdir", uphex(os.path.join(w, d)))
    if cxx:
        out += ["new0 0", "new0 1"]
    chdir(cwd)
    for _ in range(n):
        q = r.random()
        if q < 0.15:
            cwd = r.choice(dirs)
            chdir(cwd)
        elif q < 0.5:
            if r.random() < 0.75:
                if r.random() < 0.7:
                    p("free")
                elif cxx:
                    p("free", "1")
                else:
                    p("force")
            fn = names(r, w, files, cwd) if r.random() < 0.85 else r.choice([l.path for l in b["libs"].values()])
            if r.random() < 0.3:
                n1 = int(r.random() < 0.3 and ns < 6)
                ns += n1
                p("args", "%s %d %d" % (uphex(fn), r.choice([1, 2, 1 if n1 else 0x101]), n1))
            elif r.random() < 0.5 and not cxx:
                p("namesym", uphex(fn))
            else:
                p("name", uphex(fn))
            if r.random() < 0.3:
                p("path")
        elif q < 0.6:
            r.choice([lambda: p("all"), lambda: p("sym", "#%d" % r.randrange(len(b["syms"]))), lambda: out.append("fault sym " + r.choice(b["syms"]))])()
        elif q < 0.7:
            out.extend(r.choice(["fault dlinfo 1", "fault dladdr 1", "fault lname 1", "fault lname 2", "fault lname 3", "fault fname 1", "fault fname 2", "fault fname 3", "fault dlinfo 1\nfault fname %d" % r.choice([1, 3]), "fault lname 1\nfault fname 3", "faultclear", "faultclear", "faultclear", "faultclear", "fault close 1", "fault open 1"] + ["fault maps 1", "fault maps 0"] * maps).split("\n"))
        else:
            out.append("path 1" if cxx and r.random() < 0.2 else "path 0" if cxx else "path")
            if r.random() < 0.2:
                p("err")
    return out


def fakes(c):
    """include directories: the request as newer headers have it, and a number the kernel rejects"""
    res = []
    for name, num in (("fake", 17), ("fake2", 250)):
        d = c.mkdir(name, "linux")
        open(d + "/fs.h", "w").write(FAKE_FS % num)
        res.append(os.path.dirname(d))
    return res


def check(c):
    c.rule = "one case = one history; path queries that returned a path confirmed to be the mapped file are counted; non-trivial: at least one such"
    c.assumptions = ["the mapped file is the one whose mapping in /proc/self/maps contains the library's dynamic section", "file names without a newline (the kernel's list does not show those faithfully)",
                     "with dlinfo() failing only dladdr() is left, which knows relative names as given: absolute is demanded only for absolute requests then"]
    tool = Tool(c)
    r = c.rng
    jobs = []
    fake, fake2 = fakes(c)

    for n, (fmt, model) in enumerate((("c", PathC), ("c++", PathCxx))):
        cfgs = configs(r, fmt, n=c.n(10, 38), skip=r.randrange(22)) + configs(r, fmt, n=c.n(2, 8), san="asan", skip=r.randrange(22))
        for i, cfg in enumerate(cfgs):
            cfg.inc = (None, fake, None, fake2)[i % 4]
        builds = build_all(c, tool, r, cfgs, ks=[1000 * n + r.randrange(11) + 11 * k for k in range(len(cfgs))], driver="drv_c.c" if fmt == "c" else "drv_cxx.cpp")
        for b in builds:
            w, files, dirs = tree(c, b, str(b["k"]))
            for i in range(c.n(40, 400)):
                lp = [r.choice(["d1", "d2", w + "/d1", w + "/d2", w + "/" + dirs[4].replace(":", ""), "", "nowhere", w + "/dl", w + "/deep/../d1"]) for _ in range(r.choice([1, 2, 3]))]
                jobs.append((b, script(r, b, w, files, dirs, r.choice([10, 30, 60]), fmt == "c++"), model, {"LD_LIBRARY_PATH": ":".join(lp)}))

    def one(j):
        b, sc, model, env = j
        return j, history(c, b, sc, ("path", "crash"), model, env=env)

    ok = nopath = 0
    for (b, sc, model, env), res in pmap(one, jobs):
        if res is None:
            continue
        m, steps, _, _ = res
        ok += getattr(m, "paths_ok", 0)
        nopath += sum(1 for s in steps if s.cmd == "path" and not s.path)
        c.count("branch_" + ("text" if b["cfg"].inc is None else "ioctl" if b["cfg"].inc.endswith("fake") else "ioctl_fails"))
        c.case(sha(repr(sc) + str(b["k"])), nontrivial=getattr(m, "paths_ok", 0) > 0)
    c.extra["paths_confirmed"] = ok
    c.extra["queries_without_path"] = nopath
    c.sample({"script": jobs[0][1][:20], "env": jobs[0][3], "config": repr(jobs[0][0]["cfg"])})
