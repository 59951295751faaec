"""R14: the Windows code paths, run under an emulated Windows API."""
import os, re
from vk import gen
from vk.core import HarnessError, pmap, run, run2, sha
from vk.gen import HARNESS, SAN_ENV, cc_run, rename, uphex
from vk.tool import Tool

TECHNIQUE = ("runtime monitoring: the generated Windows code compiled against an emulation of the Windows loader API (made-up modules, scripted failures, reference counts) with ASan/UBSan/LSan; "
             "random histories judged online by the emulation and offline by a model of the documented behaviour")
LEVEL_NOTE = "exploration: random histories and declaration sets; narrow, wide, converting and dlfcn-win32 variants of all five formats; the emulation stands in for Windows itself"
WIN = os.path.join(HARNESS, "win")
JUNK = 49000
OKMSG = "The operation completed successfully. "

SHAPES = [["vk_a", "vk_b", "vk_c", "vk_o:obj"], ["vk_only"], ["vk_obj:obj"], ["aK", "bK", "cK:obj", "dK9"], ["vk_", "vk_x", "vk_xy", "vk_y:obj"], ["vka", "vkaa", "vkaaa", "vkaaaa", "vkb:obj", "vkbb:obj"],
          ["f%d" % i for i in range(20)] + ["g%d:obj" % i for i in range(4)]]


class Cfg:
    def __init__(self, fmt, wide=False, dl=False, defs=(), lang="c", sep=False, prefix=None, cc="gcc", lib=None, std=None, libdef=None):
        self.fmt, self.wide, self.dl, self.defs, self.sep, self.prefix, self.cc, self.lib, self.std, self.libdef = fmt, wide, dl, list(defs), sep, prefix, cc, lib, std, libdef
        self.cxx = lang == "c++" or fmt in ("c++", "minimal-c++")
        self.wchar = wide and not dl          # gdo_char_t is wchar_t

    def __repr__(self):
        return " ".join("%s=%r" % kv for kv in sorted(self.__dict__.items()))


LIB = "d/ef %s 1.dll"
CONFIGS = [
    Cfg("c"), Cfg("c", wide=True), Cfg("c", defs=["GDO_CONVERT_FILENAME"]), Cfg("c", dl=True), Cfg("c++"), Cfg("c++", wide=True, cc="clang"), Cfg("c++", dl=True), Cfg("plugin"), Cfg("plugin", wide=True),
    Cfg("minimal"), Cfg("minimal-c++"), Cfg("c", lib=LIB, defs=["GDO_ENABLE_AUTOLOAD"]), Cfg("c", lib=LIB, wide=True, defs=["GDO_ENABLE_AUTOLOAD_LAZY"]), Cfg("c++", lib=LIB, defs=["GDO_ENABLE_AUTOLOAD"]),
    Cfg("c++", lib=LIB, wide=True, defs=["GDO_ENABLE_AUTOLOAD"]), Cfg("c", defs=["GDO_WRAP_FUNCTIONS", "GDO_USE_MESSAGE_BOX"], lib="q.dll"), Cfg("c", wide=True, defs=["GDO_ENABLE_AUTOLOAD", "GDO_USE_MESSAGE_BOX"], lib="q.dll"),
    Cfg("c++", defs=["GDO_WRAP_FUNCTIONS", "GDO_USE_MESSAGE_BOX"]), Cfg("c", wide=True, sep=True, defs=["GDO_WRAP_FUNCTIONS"], cc="clang"), Cfg("c++", wide=True, sep=True), Cfg("c", lang="c++", wide=True, cc="clang"),
    Cfg("c", prefix="My_Lib", defs=["GDO_CONVERT_FILENAME"], cc="clang"), Cfg("c++", prefix="zz9", wide=True), Cfg("plugin", wide=True, sep=True, lang="c++"), Cfg("plugin", dl=True), Cfg("minimal", dl=True, cc="clang"), Cfg("minimal-c++", wide=True),
    Cfg("c", lang="c++", defs=["GDO_CONVERT_FILENAME"], sep=True), Cfg("c", wide=True, dl=True), Cfg("c++", wide=True, dl=True), Cfg("c", lib=LIB, defs=["GDO_ENABLE_AUTOLOAD", "GDO_STATIC", "GDO_CONVERT_FILENAME"]),
    Cfg("c++", lib=LIB, wide=True, defs=["GDO_ENABLE_AUTOLOAD_LAZY", "GDO_USE_MESSAGE_BOX"], std="c++20", cc="clang"), Cfg("plugin", wide=True, dl=True), Cfg("c++", libdef='L"d/ef 1.dll"', wide=True, defs=["GDO_ENABLE_AUTOLOAD"], std="c++20"),
    Cfg("c", libdef='L"d/ef 1.dll"', wide=True, defs=["GDO_ENABLE_AUTOLOAD_LAZY"]), Cfg("c", lib=LIB, dl=True, defs=["GDO_ENABLE_AUTOLOAD"]), Cfg("c++", lib=LIB, dl=True, defs=["GDO_ENABLE_AUTOLOAD"]),
    Cfg("c", lib=LIB, wide=True, dl=True, defs=["GDO_ENABLE_AUTOLOAD", "GDO_USE_MESSAGE_BOX"]), Cfg("c", dl=True, wide=True, defs=["GDO_WRAP_FUNCTIONS"], cc="clang"), Cfg("c++", lib=LIB, dl=True, wide=True, defs=["GDO_ENABLE_AUTOLOAD", "GDO_USE_MESSAGE_BOX"]),
]


def build(c, tool, k, cfg, shape):
    w = c.mkdir("b%d" % k)
    syms = [(s.split(":")[0], s.endswith(":obj")) for s in shape]
    P = cfg.prefix
    hdr = "h.hpp" if cfg.fmt in ("c++", "minimal-c++") else "h.h"
    text = "".join("extern int %s;\n" % n if o else "int %s(int a);\n" % n for n, o in syms)
    args = ["-", "-format=" + cfg.fmt, "-no-date", "-out=" + hdr] + (["-separate"] if cfg.sep else []) + (["-prefix=" + P] if P else []) + (["-library=" + cfg.lib] if cfg.lib else [])
    r = tool.run(args, stdin=text.encode(), cwd=w)
    if r.rc:
        raise HarnessError("generator fails: %s\n%s" % (args, r.text()))
    # functions come first in the generated order
    order = [s for s in syms if not s[1]] + [s for s in syms if s[1]]
    o = ["const char *const vkw_names[] = {" + "".join('"%s", ' % n for n, _ in order) + "0};", "enum { VKW_COUNT = %d };" % len(order)]
    for i, (n, ob) in enumerate(order):
        o.append("static int vkimpl_%d = %d;" % (i, i) if ob else "static int vkimpl_%d(int a) { return a + %d; }" % (i, i))
    o += ["#ifdef __cplusplus", 'extern "C"', "#endif", "void *vkw_address(const char *n);", "void *vkw_address(const char *n) {"]
    o += ['  if (!strcmp(n, "%s")) return (void *)&vkimpl_%d;' % (n, i) for i, (n, _) in enumerate(order)] + ["  return NULL; }", ""]
    open(w + "/vkw_impl.inc", "w").write("\n".join(o))
    plug, mini = cfg.fmt == "plugin", cfg.fmt.startswith("minimal")
    raw = "h->ptr.%s" if plug else "gdo::GDO_PTR_%s" if cfg.fmt == "minimal-c++" else "gdo_hndl.GDO_PTR_%s" if mini else "GDO_RAWPTR_%s"
    q = ["static uintptr_t vk_ptr(%sint i) { switch (i) {" % ("gdo_handle_t *h, " if plug else "")] + ["  case %d: return (uintptr_t)%s;" % (i, raw % n) for i, (n, _) in enumerate(order)] + ["  } return 0; }"]
    if not plug and not mini:
        q += ["static const int vk_nums[] = {" + ", ".join("GDO_LOAD_" + n for n, _ in order) + "};", "static int vk_call(int i, int x) { switch (i) {"]
        q += ["  case %d: return %s;" % (i, n if ob else "%s(x)" % n) for i, (n, ob) in enumerate(order)] + ["  } return -1; }"]
    drv = open(WIN + "/win_c.c").read()
    tab = "\n".join(q) + "\n"
    if P:
        drv = "\n".join(rename(l, P) for l in drv.split("\n"))
        names = {n for n, _ in order}
        tab = re.sub(r"\bGDO_(RAWPTR|LOAD|PTR)_", lambda m: rename("GDO_", P) + m.group(1) + "_", tab).replace("gdo_hndl", rename("gdo_hndl", P)).replace("gdo::", rename("gdo", P) + "::").replace("gdo_handle_t", rename("gdo_handle_t", P))
    open(w + "/vkw_tables.inc", "w").write(tab)
    src = w + ("/drv.cpp" if cfg.cxx else "/drv.c")
    open(src, "w").write(drv)
    kind = {"c": "VKW_C", "c++": "VKW_CXX", "plugin": "VKW_PLUGIN", "minimal": "VKW_MIN", "minimal-c++": "VKW_MIN"}[cfg.fmt]
    defs = ["-D" + kind] + (["-DVKW_MINCXX"] if cfg.fmt == "minimal-c++" else []) + (["-DUNICODE", "-D_UNICODE"] if cfg.wide else []) + (["-DVKW_CASCXX"] if cfg.cxx and cfg.fmt in ("c", "plugin") else [])
    mingw = k % 3 == 1
    defs += ["-DVKW_MINGW"] if mingw else []
    defs += ["-D" + (rename(d, P) if P else d) for d in cfg.defs + (["GDO_USE_DLOPEN"] if cfg.dl else [])]
    if cfg.libdef:
        defs.append("-DGDO_DEFAULT_LIB=" + cfg.libdef)
    flags = ["-O1", "-w", "-I" + WIN, "-I" + w, "-include", WIN + "/prelude.h"] + gen.SAN["asan"] + (["-fno-sanitize=function"] if cfg.cc == "clang" else []) + defs
    ccx = {"gcc": ("gcc", "g++"), "clang": ("clang", "clang++")}[cfg.cc]
    std = ["-std=" + (cfg.std or ("gnu++17" if cfg.cxx else "gnu11"))]
    if not cfg.cxx:
        std += ["-Werror=incompatible-pointer-types", "-Werror=int-conversion", "-Werror=implicit-function-declaration"]
    objs, jobs = [], []

    def cc(f, more=()):
        cx = f.endswith(".cpp")
        jobs.append([ccx[cx]] + flags + (std if cx == cfg.cxx else []) + list(more) + ["-c", f, "-o", f + ".o"])
        objs.append(f + ".o")
    cc(src, ['-DVKW_HEADER="%s"' % hdr])
    if cfg.sep:
        cc(w + ("/h.cpp" if cfg.fmt == "c++" else "/h.c"))
        if cfg.cxx and cfg.fmt != "c++":
            # C output used by a C++ program: both sides in C++
            jobs[-1] = [ccx[1], "-x", "c++"] + flags + std + jobs[-1][-4:]
    sh = w + "/shim.o"
    jobs.append([ccx[0]] + gen.SAN["asan"] + ["-O1", "-w", "-DVKW_SHIM", "-I" + WIN, "-c", WIN + "/winshim.c", "-o", sh])
    for j in jobs:
        r = run(j, timeout=300)
        if r.rc:
            return dict(fail=r.text(3000), cfg=cfg, w=w, k=k)
    cc_run([ccx[cfg.cxx], "-o", w + "/prog"] + objs + [sh] + gen.SAN["asan"], "program")
    return dict(mingw=mingw, exe=w + "/prog", cfg=cfg, syms=[n for n, _ in order], nfun=sum(not ob for _, ob in order), w=w, k=k)


# ------------------------------------------------------------------ scripts
def modules(r, cfg, syms):
    """{name (bytes): ("mod", path bytes, symbols) or ("bad", code)}"""
    m = {}
    some = set(r.sample(syms, max(1, len(syms) // 2))) if len(syms) > 1 else set()
    pre = "C:\\Program Files\\x %s\\"

    def path(n):
        return (pre + n.split("\\")[-1]).encode()
    m[b"vka.dll"] = ("mod", path("vka.dll"), syms)
    m[b"sub\\d r\\vkb.dll"] = ("mod", path("vkb.dll"), syms)
    m[b"sub/d r/vkb.dll" if cfg.dl or cfg.fmt in ("plugin", "minimal", "minimal-c++") else b"never"] = ("mod", path("vkb2.dll"), syms)
    m["\u00fcn\u00ef \u20ac.dll".encode()] = ("mod", path("\u00fcn\u00ef \u20ac.dll"), syms)
    m["clef \U0001d11e.dll".encode()] = ("mod", path("clef \U0001d11e.dll"), syms)
    m[b"part.dll"] = ("mod", path("part.dll"), [s for s in syms if s not in some])
    m[b"none%s%n.dll"] = ("mod", path("none%s%n.dll"), [])
    m[b"bad.dll"] = ("bad", r.choice([193, 998, 1114]))
    m[b"L" * 9000 + b".dll"] = ("mod", path("L.dll"), syms)
    for n in (32766, 32767, 32768, 33000, 100000):
        m[b"path%d.dll" % n] = ("mod", b"C:\\" + b"p" * (n - 3), syms)
    if not cfg.wchar:
        m[b"inv\xff\xfe.dll"] = ("mod", path("inv.dll"), syms)
    d = cfg.lib or (cfg.libdef and cfg.libdef[2:-1])
    if d:
        d = d.encode() if cfg.dl else d.encode().replace(b"/", b"\\")
        m[d] = r.choice([("mod", path("def.dll"), syms)] * 3 + [("mod", path("def2.dll"), [s for s in syms if s not in some]), ("bad", 193), None])
        if m[d] is None:
            del m[d]
    return m


def fname(r, cfg, m):
    q = r.random()
    if q < 0.06:
        return None
    if q < 0.12:
        return b""
    if q < 0.2:
        return r.choice([b"missing.dll", b"no/such %s.dll", b"M" * 40000, b"x/" * 500, b"a\\b/miss.dll", "fehlt \u00e4.dll".encode(), "weg \U0001f600.dll".encode()] + ([] if cfg.wchar else [b"bad\xc3"]))
    if q < 0.3:
        return r.choice([b"sub/d r/vkb.dll", b"sub/d r/vkb.dll", b"sub\\d r/vkb.dll", b"sub/d r\\vkb.dll"])
    return r.choice(sorted(n for n in m if n != b"never"))


def faults(r, syms):
    k = r.randrange(14)
    if k < 4:
        return "fault sym %s %d" % (r.choice(syms), r.randint(200, 9999))
    return ["fault open %d" % r.randint(200, 9999), "fault close %d" % r.randint(200, 9999), "fault modname %d" % r.randint(200, 9999), "fault alloc %d" % r.choice([1, 1, 2, 3]), "fault clear", "fault clear", "fmt fail", "fmt ok", "fmt ok",
            "fmt long %d" % r.choice([100, 9000, 40000, 70000])][k - 4]


def script(r, cfg, syms, nfun, m, n):
    out = []
    if cfg.fmt == "plugin":
        used = []
        for _ in range(n):
            if r.random() < 0.35:
                out.append(faults(r, syms))
            if r.random() < 0.6 and len(used) < 6:
                k = next(i for i in range(8) if i not in used)
                used.append(k)
                out.append("plug %d " % k + " ".join(uphex(fname(r, cfg, m)) for _ in range(r.choice([0, 1, 1, 2, 3, 8, 30]))))
            elif used:
                out.append("rel %d" % used.pop(r.randrange(len(used))))
        return out + ["fault clear"] + ["rel %d" % k for k in used]
    if cfg.fmt.startswith("minimal"):
        for _ in range(n):
            if r.random() < 0.35:
                out.append(faults(r, syms))
            out.append("min " + uphex(fname(r, cfg, m)) if r.random() < 0.8 else "minfree")
        return out
    wrap = nfun and any("WRAP" in d or "AUTOLOAD" in d for d in cfg.defs)
    has = bool(cfg.lib or cfg.libdef)

    def sym():
        return uphex(r.choice([None, b"", b"nope", b"vk_", b"no%s%n", b"x" * 5000, "\u00e4".encode()] + [s.encode() for s in syms] * 2 + [r.choice(syms).encode() + b"q", r.choice(syms).encode()[:-1]]))
    bad = lambda: b"inv\xff%d.dll" % r.randrange(9) if r.random() < 0.25 else fname(r, cfg, m) or b""
    many = 4 if any("AUTOLOAD" in d for d in cfg.defs) else 1
    fl = lambda: r.choice(["0", "0", "2", "8", "2048"])
    if cfg.fmt == "c":
        for _ in range(n):
            if r.random() < 0.3:
                out.append(faults(r, syms))
            q = r.random()
            if q < 0.34:
                ops = ["load %s %s %d" % (uphex(fname(r, cfg, m)), fl(), r.randint(0, 1)), "loadname " + uphex(fname(r, cfg, m)), "loadnamesym " + uphex(fname(r, cfg, m))] + (["loadlib", "loadlibsym"] if has else [])
                out.append(r.choice(ops))
            else:
                ops = ["free", "free", "force", "all", "all", "all", "sym %d" % r.choice([r.randrange(len(syms))] * 5 + [len(syms), -1, 99999, 2 ** 31 - 1]), "symname " + sym(), "symname " + sym(), "path", "path", "nop"] + (["call %d" % r.randrange(nfun)] * many if wrap else [])
                out.append(r.choice(ops) if r.random() < 0.97 else "auto")
        return out
    live = []
    for _ in range(n):
        if r.random() < 0.25:
            out.append(faults(r, syms).replace("fault alloc", "fault clear #"))
        if not live or (len(live) < 4 and r.random() < 0.12):
            k = next(i for i in range(8) if i not in live)
            live.append(k)
            f = uphex(fname(r, cfg, m) or b"")
            kinds = ["new %d" % k, "newname %d %s %s" % (k, f, fl())]
            if not cfg.dl:
                kinds += ["newconv %d %s %s %d" % (k, uphex(bad()), fl(), r.randint(0, 1)), "neww %d %s %s" % (k, uphex(valid(r, cfg, m)), fl())]
            out.append(r.choice(kinds))
            continue
        k = r.choice(live)
        q = r.random()
        if q < 0.06:
            live.remove(k)
            out.append("del %d" % k)
        elif q < 0.4:
            f = uphex(fname(r, cfg, m) or b"")
            ops = ["load %d %s %s" % (k, f, fl()), "load0 %d" % k, "loadsym %d" % k]
            if not cfg.dl:
                ops += ["loadconv %d %s %s %d" % (k, uphex(bad()), fl(), r.randint(0, 1)), "loadw %d %s %s" % (k, uphex(valid(r, cfg, m)), fl())] * 2
            out.append(r.choice(ops))
        else:
            ops = ["free %d %d" % (k, r.randint(0, 1)), "dtor %d %d" % (k, r.randint(0, 1)), "all %d" % k, "all %d" % k, "sym %d %d" % (k, r.choice([r.randrange(len(syms))] * 5 + [len(syms), -1, 99999])),
                   "symname %d %s" % (k, sym()), "path %d" % k, "fname %d" % k, "path %d" % k] + ([] if cfg.dl else ["pathw %d" % k, "pathw %d" % k, "fnamew %d" % k]) + (["call %d" % r.randrange(nfun)] * many if wrap else [])
            out.append(r.choice(ops))
    return out


def valid(r, cfg, m):
    while True:
        f = fname(r, cfg, m) or b""
        try:
            f.decode()
            return f
        except UnicodeDecodeError:
            pass


# ------------------------------------------------------------------ records
class Op:
    def __init__(self, n, cmd):
        self.n, self.cmd, self.ev, self.v, self.odd, self.ret, self.rows, self.names = n, cmd, [], {}, [], None, [], []


def unhex(t):
    return None if t == "~" else bytes.fromhex(t[1:])


def parse(out):
    ops, end = [], None
    for l in out.decode("utf-8", "replace").splitlines():
        f = l.split(" ")
        if f[0] == "O":
            ops.append(Op(int(f[1]), f[2]))
        elif f[0] == "E":
            ops[-1].ev.append(f[1:])
        elif f[0] == "R":
            ops[-1].ret = int(f[1])
        elif f[0] == "M":
            ops[-1].names.append(unhex(f[1]))
        elif f[0] == "END":
            end = int(f[2])
        elif f[0] in ("X", "Y", "F"):
            ops[-1].v[f[0]] = unhex(f[1])
        elif f[0] in ("L", "Q", "P", "D", "G"):
            ops[-1].v[f[0]] = [int(x) for x in f[1:]]
        elif f[0] in ("N", "H"):
            ops[-1].rows.append(unhex(f[1]) if f[0] == "N" else [int(x) for x in f[1:]])
        else:
            ops[-1].odd.append(l)
    return ops, end


CODE = re.compile(rb"(?:sys message|error code:) (\d+)")


class Judge:
    """Follows one run: the emulation's events, the state it must have led to, and what the program said."""

    def __init__(self, b, m, fail):
        self.b, self.cfg, self.m, self.fail = b, b["cfg"], m, fail
        self.refs, self.cur, self.ptrs = {}, None, set()
        self.fmt = "ok"
        self.last = {}
        self.auto = False
        self.slots = {}
        self.seen = {}
        self.plug = {}
        self.cover = {}

    def count(self, k):
        self.cover[k] = self.cover.get(k, 0) + 1

    def feed(self, op):
        """events of the emulation -> (names asked for, failures in order)"""
        asked, how, fails, frees, cur = [], [], [], [], None
        for e in op.ev:
            if e[0] == "load":
                asked.append(unhex(e[1]))
            elif e[0] == "how":
                how.append((e[1], int(e[2])))
            elif e[0] == "loaded":
                cur = asked[-1]
                self.refs[cur] = self.refs.get(cur, 0) + 1
            elif e[0] == "free":
                n = unhex(e[1])
                self.refs[n] -= 1
                frees.append(n)
            elif e[0] in ("loadfail", "freefail", "pathfail"):
                fails.append((e[0], None, int(e[1])))
            elif e[0] == "symfail":
                fails.append((e[0], e[1], int(e[2])))
            elif e[0] == "bad":
                self.fail(op, "api", " ".join(e))
            elif e[0] not in ("box", "allocfail"):
                self.fail(op, "api", " ".join(e))
        return asked, how, fails, frees, cur

    def text(self, op, kind, need=(), code=None, key=None, tags="XY"):
        """the error text after an operation; kind: ok, sys (a loader failure), own"""
        longmsg = self.fmt.startswith("long")
        for t in tags:
            x = op.v.get(t)
            if x is None:
                if t == "X":
                    self.fail(op, "text", "no error text")
                continue
            if not x:
                self.fail(op, "text", "the error text is empty")
                continue
            codes = [int(q) for q in CODE.findall(x)]
            if self.cfg.dl:
                if (kind == "ok") != (x == b"no error"):
                    self.fail(op, "text", "%s, but the error text is %r" % ("no failure" if kind == "ok" else "a failure", x[:200]))
            elif kind == "ok":
                good = x == b"error code: 0" if self.fmt == "fail" else x.rstrip(b"m") == OKMSG.encode() if longmsg else x == OKMSG.encode()
                if not good:
                    self.fail(op, "text", "no failure, but the error text is %r" % x[:200])
            elif kind == "own" and (x == OKMSG.encode() or x == b"error code: 0"):
                self.fail(op, "text", "a failure, but the error text is %r" % x[:200])
            elif kind == "own" and need in (("empty filename",), ("convert",), ("no library",)) and b"completed successfully" in x:
                self.fail(op, "text", "a failure, but the error text is %r" % x[:200])
            if any(q >= JUNK for q in codes):
                self.fail(op, "text", "the error text has the code of no failing call: %r" % x[:200])
            cut = False
            for s in need:
                if isinstance(s, str):
                    s = s.encode()
                if t == "Y" or self.cfg.wchar or self.cfg.fmt == "c++":
                    try:
                        u = s.decode()
                    except UnicodeDecodeError:
                        continue
                    if self.cfg.fmt == "c++" and max(map(ord, u), default=0) > 0xffff:
                        continue
                if len(s) > 4000:
                    cut, s = True, s[:4000]
                if self.cfg.dl and len(s) > 100:
                    s = s[:100]
                if s not in x:
                    self.fail(op, "text", "the error text %r does not name %r" % (x[:200], s[:100]))
            if kind == "sys" and code is not None and not cut and codes != [code]:
                self.fail(op, "text", "the loader failed with code %d, the error text is %r" % (code, x[:200]))
            self.count("texts")
        if key is not None:
            self.last[key] = (kind, need, code)

    def same_text(self, op, before):
        for t in "XY":
            if before and t in before and op.v.get(t) != before[t]:
                self.fail(op, "text", "a query changed the error text from %r to %r" % (before[t] and before[t][:100], op.v.get(t) and op.v[t][:100]))

    def state(self, op, loaded, exact=None):
        if "L" in op.v and bool(op.v["L"][0]) != loaded:
            self.fail(op, "state", "the library is %sloaded, the program says otherwise" % ("" if loaded else "not "))
        p = op.v.get("P")
        if p is None:
            return
        if 9 in p:
            self.fail(op, "state", "a pointer with a value that was never handed out")
        now = {n for n, v in zip(self.b["syms"], p) if v}
        if not loaded and now:
            self.fail(op, "state", "pointers without a library: %s" % sorted(now))
        if exact is not None and now != exact:
            self.fail(op, "state", "pointers %s, expected %s" % (sorted(now), sorted(exact)))
        self.ptrs = now
        q = op.v.get("Q")
        if q is not None and q != [int(len(now) == len(p)), int(not now), int(bool(now))]:
            self.fail(op, "state", "queries %s with %d of %d pointers" % (q, len(now), len(p)))

    def request(self, name):
        """the name the loader is asked for"""
        return name if self.cfg.dl else name.replace(b"/", b"\\")

    def opening(self, op, name, fl, convert, asked, how, fails, cur, allocfail):
        """one attempt to open a library; returns (kind, need, code) of its error or None if it must have worked"""
        if self.cur is not None:
            if asked:
                self.fail(op, "api", "asked the loader although a library is loaded")
            return "own", ("already loaded",), None
        if not name:
            if asked:
                self.fail(op, "api", "asked the loader for an empty name")
            return "own", ("empty filename",), None
        if allocfail:
            if cur is not None:
                self.cur = cur
                return None
            return "own", (), None
        if convert:
            try:
                name.decode()
            except UnicodeDecodeError:
                self.count("conversions that fail")
                if asked:
                    self.fail(op, "api", "asked the loader for a name that cannot be converted")
                return "own", ("convert",), None
        want = self.request(name)
        if asked != [want]:
            self.fail(op, "api", "asked the loader for %r instead of %r" % ([x[:60] for x in asked], want[:60]))
        if how:
            w = {"dl"} if self.cfg.dl else {"ExW"} if convert or self.cfg.wchar and self.cfg.fmt != "c++" else {"ExA"}
            if convert is None:
                w = {"ExA", "ExW"}
            if how[0][0] not in w:
                self.fail(op, "api", "the name went to LoadLibrary%s" % how[0][0])
            if fl is not None and how[0][1] != fl:
                self.fail(op, "api", "flags %d instead of %d" % (how[0][1], fl))
        lf = [f for f in fails if f[0] == "loadfail"]
        if lf:
            return "sys", (name,), lf[0][2]
        if cur is None:
            self.fail(op, "api", "the loader was not asked")
        self.cur = cur
        self.count("libraries loaded")
        return None

    def allsyms(self, op, fails, had):
        """outcome of loading all symbols: (ok, kind, need, code)"""
        if len(had) == len(self.b["syms"]):
            return None
        if self.cur is None:
            return "own", (), None
        sf = [f for f in fails if f[0] == "symfail"]
        if sf:
            self.count("symbols that fail")
            return "sys", (sf[0][1],), sf[0][2]
        return None

    def verdict(self, op, err, key=0, done=None):
        ok = err is None
        if bool(op.ret) != ok:
            self.fail(op, "state", "reported %s, but it %s" % ("success" if op.ret else "failure", "worked" if ok else "failed"))
        if ok:
            self.text(op, "ok", key=key)
        else:
            self.text(op, err[0], err[1], err[2], key=key)


def one_sym(j, op, name, fails, had):
    """loading one symbol; returns its error"""
    if j.cur is None:
        return ("own", (("no library",) if j.cfg.fmt == "c" or j.cfg.dl else ()), None), had
    if name is None or name not in j.b["syms"]:
        return ("own", ("unknown symbol",), None), had
    if name in had:
        return None, had
    sf = [f for f in fails if f[0] == "symfail"]
    if sf:
        j.count("symbols that fail")
        return ("sys", (name,), sf[0][2]), had
    return None, had | {name}


def symname_err(j, op, arg, fails, had):
    s = unhex(arg)
    if j.cur is not None and not s:
        return ("own", ("empty symbol name",), None), had
    n = None
    if s is not None:
        try:
            n = s.decode()
        except UnicodeDecodeError:
            pass
    err, after = one_sym(j, op, n, fails, had)
    if err and j.cur is not None and err[1] == ("unknown symbol",):
        err = ("own", ("unknown symbol", s), None)
    return err, after


def path_err(j, op, fails, key, epoch):
    """the library's path: returns error or None; checks the value"""
    f = op.v.get("F") or b""
    if j.cur is None:
        if f:
            j.fail(op, "path", "a path although no library is loaded: %r" % f[:80])
        return "own", (("no library",) if j.cfg.fmt == "c" or j.cfg.dl else ()), None
    pf = [x for x in fails if x[0] == "pathfail"]
    if pf:
        if f:
            j.fail(op, "path", "a path although the system gave none: %r" % f[:80])
        j.count("paths refused")
        return ("own", (), None) if j.cfg.dl else ("sys", ("GetModuleFileName",), pf[0][2])
    want = j.m[j.cur][1]
    if f != want:
        j.fail(op, "path", "path %r (%d bytes) of a library at %r (%d bytes)" % (f[:80], len(f), want[:80], len(want)))
    j.count("paths")
    return None


def judge_c(j, lines, ops, res):
    cfg = j.cfg
    default = (cfg.lib or (cfg.libdef and cfg.libdef[2:-1]) or "").encode()
    conv = "GDO_CONVERT_FILENAME" in cfg.defs and not cfg.wide and not cfg.dl
    i, before, fm = 0, None, None
    for line in lines:
        f = line.split()
        if f[0] == "fmt":
            j.fmt = " ".join(f[1:])
            before = None
            continue
        if f[0] == "fault":
            continue
        i += 1
        if i >= len(ops) or ops[i].cmd != f[0]:
            j.fail(ops[-1], "crash", "the program ended in %s" % ops[-1].cmd)
            return
        op = ops[i]
        asked, how, fails, frees, cur = j.feed(op)
        allocfail = ["allocfail"] in op.ev
        had = set(j.ptrs)
        for o in op.odd:
            j.fail(op, "text", o)
        if f[0] == "call":
            if not called(j, op, f, asked, fails, frees, cur, allocfail, default, res, i == len(ops) - 1 or ops[i].ret is None):
                return
            before = None if asked or fails else before
            if ops[i].ret is None:
                return
            j.state(op, j.cur is not None)
            before = op.v
            continue
        if op.ret is None:
            j.fail(op, "crash", "%s did not return" % f[0])
            return
        if f[0] in ("load", "loadname", "loadnamesym", "loadlib", "loadlibsym"):
            name = default if f[0].startswith("loadlib") else unhex(f[1])
            err = j.opening(op, name, int(f[2]) if f[0] == "load" else default_flags(cfg), conv, asked, how, fails, cur, allocfail)
            if err is None and f[0].endswith("sym"):
                err = j.allsyms(op, fails, set())
            j.verdict(op, err)
            j.state(op, j.cur is not None, set() if not f[0].endswith("sym") and err is None else set(j.b["syms"]) if err is None else None)
        elif f[0] in ("free", "force"):
            ff = [x for x in fails if x[0] == "freefail"]
            if f[0] == "force":
                if j.cur is not None and not ff and frees != [j.cur]:
                    j.fail(op, "api", "the library was not freed")
                j.cur = None
                j.verdict(op, None)
            elif ff:
                j.verdict(op, ("sys", () if cfg.dl else ("FreeLibrary",), ff[0][2]))
                j.count("frees that fail")
            else:
                if j.cur is not None and frees != [j.cur]:
                    j.fail(op, "api", "the library was not freed")
                j.cur = None
                j.verdict(op, None)
            j.state(op, j.cur is not None, had if j.cur is not None else set())
        elif f[0] == "auto":
            j.auto = True
            j.verdict(op, None)
            j.state(op, j.cur is not None, had)
        elif f[0] == "all":
            err = j.allsyms(op, fails, had)
            j.verdict(op, err)
            j.state(op, j.cur is not None, set(j.b["syms"]) if err is None else None)
        elif f[0] == "sym":
            n = int(f[1])
            err, after = one_sym(j, op, j.b["syms"][n] if 0 <= n < len(j.b["syms"]) else None, fails, had)
            if err and err[1] == ("unknown symbol",):
                err = ("own", ("unknown symbol number", str(n)), None)
            j.verdict(op, err)
            j.state(op, j.cur is not None, after)
        elif f[0] == "symname":
            err, after = symname_err(j, op, f[1], fails, had)
            j.verdict(op, err)
            j.state(op, j.cur is not None, after)
        elif f[0] == "path":
            j.verdict(op, path_err(j, op, fails, 0, None))
            j.state(op, j.cur is not None, had)
        elif f[0] == "nop":
            j.same_text(op, before)
            j.state(op, j.cur is not None, had)
        before = op.v
    finish(j, ops[i + 1:], res)


def default_flags(cfg):
    return 1 if cfg.dl else 0


def finish(j, rest, res):
    if res.rc != 0 or not rest:
        j.fail(rest[-1] if rest else Op(-1, "end"), "crash", "ends with %s: %s" % (res.rc, res.err[:1500].decode("utf-8", "replace")))
        return
    op = rest[0]
    asked, how, fails, frees, cur = j.feed(op)
    auto = j.auto or any("AUTOLOAD" in d for d in j.cfg.defs) and j.auto
    if j.cfg.fmt == "c" and auto and j.cur is not None and not fails and frees != [j.cur]:
        j.fail(op, "api", "not freed at exit")
    if j.cfg.fmt == "c" and not auto and frees:
        j.fail(op, "api", "freed at exit without having been asked to")


def called(j, op, f, asked, fails, frees, cur, allocfail, default, res, last):
    """a call through a wrapper; False ends the run"""
    cfg = j.cfg
    n = int(f[1])
    sym = j.b["syms"][n]
    auto = [d for d in cfg.defs if "AUTOLOAD" in d]
    loaded = sym in j.ptrs
    err = None
    j.count("wrapper calls")
    if not loaded and auto:
        j.auto = True
        if j.cur is None:
            if not allocfail and asked != [j.request(default)]:
                j.fail(op, "api", "asked the loader for %r instead of %r" % (asked, j.request(default)))
            if cur is None:
                err = [x for x in fails if x[0] == "loadfail"][:1] or [("alloc", None, None)]
            else:
                j.cur = cur
        if err is None:
            sf = [x for x in fails if x[0] == "symfail"]
            err = sf[:1] or None
    elif not loaded:
        err = [("none", None, None)]
    if err is None:
        if op.ret != 1000 + n:
            j.fail(op, "wrap", "returned %s instead of %d (exit %s: %s)" % (op.ret, 1000 + n, res.rc, res.err[:300]))
            return False
        return True
    if op.ret is not None:
        j.fail(op, "wrap", "the call went ahead without the function")
        return False
    j.count("wrapper calls refused")
    want = 1 if auto else -6
    if res.rc != want:
        j.fail(op, "wrap", "the refused call ended with %s instead of %s: %s" % (res.rc, want, res.err[:1500].decode("utf-8", "replace")))
    if "GDO_USE_MESSAGE_BOX" in cfg.defs:
        boxes = [unhex(e[1]) for e in op.ev if e[0] == "box"]
        if len(boxes) != 1:
            j.fail(op, "wrap", "%d message boxes" % len(boxes))
            return False
        msg = boxes[0]
        if res.err.strip():
            j.fail(op, "wrap", "a message box and standard error: %r" % res.err[:200])
    else:
        msg = res.err
    need = [sym.encode()] + ([default] if auto else [])
    if not auto:
        need.append(b"library not loaded" if j.cur is None else b"symbol not loaded")
    for s in need:
        if s not in msg:
            j.fail(op, "wrap", "the message %r does not name %r" % (msg[:300], s))
    if auto and err[0][2] is not None and not j.fmt.startswith("long"):
        codes = [int(q) for q in CODE.findall(msg)]
        # the symbol lookup behind a failed open reports the missing library
        if err[0][0] == "symfail" and codes != [err[0][2]]:
            j.fail(op, "wrap", "the loader failed with code %d, the message is %r" % (err[0][2], msg[:300]))
    if any(int(q) >= JUNK for q in CODE.findall(msg)):
        j.fail(op, "wrap", "the message has the code of no failing call: %r" % msg[:300])
    return False


def judge_cxx(j, lines, ops, res):
    cfg = j.cfg
    default = (cfg.lib or (cfg.libdef and cfg.libdef[2:-1]) or "").encode()
    i, before = 0, {}
    auto = [d for d in cfg.defs if "AUTOLOAD" in d]
    for line in lines:
        f = line.split()
        if f[0] == "fmt":
            j.fmt = " ".join(f[1:])
            before = {}
            continue
        if f[0] == "fault":
            continue
        i += 1
        if i >= len(ops) or ops[i].cmd != f[0]:
            j.fail(ops[-1], "crash", "the program ended in %s" % ops[-1].cmd)
            return
        op = ops[i]
        asked, how, fails, frees, cur = j.feed(op)
        had = set(j.ptrs)
        for o in op.odd:
            j.fail(op, "text", o)
        k = int(f[1])
        if f[0] == "call":
            if not called(j, op, f, asked, fails, frees, cur, False, default, res, True):
                return
            j.state(op, j.cur is not None)
            continue
        if op.ret is None:
            j.fail(op, "crash", "%s did not return" % f[0])
            return
        s = j.slots.get(k)
        if f[0].startswith("new"):
            s = j.slots[k] = dict(name=None, wide=False, conv=False, convset=False, fl=default_flags(cfg), dtor=True)
            if f[0] != "new":
                s.update(name=unhex(f[2]) or b"", fl=int(f[3]), wide=f[0] == "neww", conv=f[0] == "newconv" and f[4] == "1")
                s["convset"] = s["conv"]
            j.text(op, "ok", key=k)
            if asked or frees:
                j.fail(op, "api", "the constructor used the loader")
        elif f[0] == "del":
            if s["dtor"]:
                ff = [x for x in fails if x[0] == "freefail"]
                if j.cur is not None and not ff and frees != [j.cur]:
                    j.fail(op, "api", "the destructor did not free the library")
                j.cur = None
            elif frees:
                j.fail(op, "api", "the destructor freed the library")
            del j.slots[k]
            j.state(op, j.cur is not None, had if j.cur is not None else set())
            before.pop(k, None)
            continue
        elif f[0] in ("load", "loadconv", "loadw", "load0", "loadsym"):
            if f[0] in ("load", "loadconv", "loadw"):
                s.update(name=unhex(f[2]) or b"", fl=int(f[3]), wide=f[0] == "loadw")
                if f[0] == "loadconv":
                    s["conv"] = f[4] == "1"
                    s["convset"] = s["convset"] or s["conv"]
            named = s["name"]
            conv = True if s["wide"] else s["conv"] if f[0] == "loadconv" else None if s["convset"] or s.get("asked_w") else False
            if conv is None and named:
                try:
                    named.decode()
                except UnicodeDecodeError:
                    conv = s["conv"]
            err = j.opening(op, named, s["fl"], conv, asked, how, fails, cur, False)
            if err is None and f[0] == "loadsym":
                err = j.allsyms(op, fails, set())
            j.verdict(op, err, key=k)
            j.state(op, j.cur is not None, set() if f[0] != "loadsym" and err is None else set(j.b["syms"]) if err is None else None)
        elif f[0] == "free":
            ff = [x for x in fails if x[0] == "freefail"]
            if ff and f[2] == "0":
                j.verdict(op, ("sys", () if cfg.dl else ("FreeLibrary",), ff[0][2]), key=k)
                j.count("frees that fail")
            else:
                if j.cur is not None and not ff and frees != [j.cur]:
                    j.fail(op, "api", "the library was not freed")
                j.cur = None
                j.verdict(op, None, key=k)
            j.state(op, j.cur is not None, had if j.cur is not None else set())
        elif f[0] == "dtor":
            s["dtor"] = f[2] == "1"
            j.same_text(op, before.get(k))
        elif f[0] == "all":
            err = j.allsyms(op, fails, had)
            j.verdict(op, err, key=k)
            j.state(op, j.cur is not None, set(j.b["syms"]) if err is None else None)
        elif f[0] == "sym":
            n = int(f[2])
            err, after = one_sym(j, op, j.b["syms"][n] if 0 <= n < len(j.b["syms"]) else None, fails, had)
            if err and err[1] == ("unknown symbol",):
                err = ("own", ("unknown symbol number", str(n)), None)
            j.verdict(op, err, key=k)
            j.state(op, j.cur is not None, after)
        elif f[0] == "symname":
            err, after = symname_err(j, op, f[2], fails, had)
            j.verdict(op, err, key=k)
            j.state(op, j.cur is not None, after)
        elif f[0] in ("path", "pathw"):
            want = j.m[j.cur][1] if j.cur is not None else b""
            try:
                bad = f[0] == "pathw" and want.decode() is None
            except UnicodeDecodeError:
                bad = True
            j.verdict(op, path_err(j, op, fails, k, None), key=k)
            j.state(op, j.cur is not None, had)
        elif f[0] in ("fname", "fnamew"):
            n = s["name"] or b""
            got = op.v.get("F")
            ok = [n]
            if f[0] == "fnamew" and not s["wide"] or f[0] == "fname" and s["wide"]:
                # the conversion may be impossible
                try:
                    u = n.decode()
                    if f[0] == "fname" and max(map(ord, u), default=0) > 0xffff:
                        ok = [b""]
                except UnicodeDecodeError:
                    ok = [b""]
                s["asked_w"] = s.get("asked_w") or f[0] == "fnamew"
            if got not in ok:
                j.fail(op, "path", "file name %r of an object that was given %r" % (got and got[:80], n[:80]))
            j.count("file names")
            j.same_text(op, before.get(k))
            j.state(op, j.cur is not None, had)
        if "D" in op.v and op.v["D"] != [s["fl"], int(s["dtor"])]:
            j.fail(op, "state", "flags and free mode %s, expected %s" % (op.v["D"], [s["fl"], int(s["dtor"])]))
        before[k] = op.v
    finish(j, ops[i + 1:], res)


def judge_min(j, lines, ops, res):
    i = 0
    for line in lines:
        f = line.split()
        if f[0] in ("fmt", "fault"):
            continue
        i += 1
        if i >= len(ops) or ops[i].cmd != f[0] or ops[i].ret is None:
            j.fail(ops[-1], "crash", "the program ended in %s: %s" % (ops[-1].cmd, res.err[:1500].decode("utf-8", "replace")))
            return
        op = ops[i]
        old = j.cur
        asked, how, fails, frees, cur = j.feed(op)
        if old is not None and not any(x[0] == "freefail" for x in fails) and old not in frees:
            j.fail(op, "api", "the library that was loaded before was not freed")
        j.cur = None
        if f[0] == "min":
            n = unhex(f[1])
            x = op.v.get("X")
            if not n:
                need = (b"NULL" if n is None else b"mpty" if j.cfg.fmt == "minimal" else b"EMPTY",)
                if op.ret == 1 or asked:
                    j.fail(op, "state", "accepted an empty name")
            else:
                if asked != [n]:
                    j.fail(op, "api", "asked the loader for %r instead of %r" % (asked, n))
                lf = [q for q in fails if q[0] == "loadfail"]
                sf = [q for q in fails if q[0] == "symfail"]
                need = ()
                if lf:
                    need = (b"library",) if j.cfg.fmt == "minimal" else (n,)
                elif sf:
                    need = (sf[0][1].encode(),)
                    if cur is not None and cur not in frees and not any(x[0] == "freefail" for x in fails):
                        j.fail(op, "api", "not freed after a missing symbol")
                else:
                    j.cur = cur
                want = 1 if not lf and not sf else 2 if sf and j.cfg.fmt == "minimal-c++" else 0
                if op.ret != want:
                    j.fail(op, "state", "returned %d instead of %d" % (op.ret, want))
            for q in need:
                if q not in (x or b""):
                    j.fail(op, "text", "the error %r does not name %r" % (x and x[:100], q[:100]))
            if not need and x is not None:
                j.fail(op, "text", "an error text after success: %r" % x[:100])
            j.count("loads")
        j.state(op, j.cur is not None, set(j.b["syms"]) if j.cur is not None else set())
    finish(j, ops[i + 1:], res)


def judge_plugin(j, lines, ops, res):
    i = 0
    fsym = None
    for line in lines:
        f = line.split()
        if f[0] == "fault":
            fsym = f[2] if f[1] == "sym" else None if f[1] == "clear" else fsym
            continue
        if f[0] == "fmt":
            continue
        i += 1
        if i >= len(ops) or ops[i].cmd != f[0] or ops[i].ret is None:
            j.fail(ops[-1], "crash", "the program ended in %s: %s" % (ops[-1].cmd, res.err[:1500].decode("utf-8", "replace")))
            return
        op = ops[i]
        was = dict(j.refs)
        asked, how, fails, frees, cur = j.feed(op)
        short = ["allocfail"] in op.ev
        if f[0] == "rel":
            got = j.plug.pop(int(f[1]))
            nf = sum(x[0] == "freefail" for x in fails)
            if len(frees) + nf != len(got) or (not nf and sorted(frees) != sorted(got)):
                j.fail(op, "api", "released %d of %d plugins" % (len(frees), len(got)))
            j.count("results released")
            continue
        names = [unhex(t) for t in f[2:]]
        j.plug[int(f[1])] = []
        if not names:
            if op.ret or asked:
                j.fail(op, "state", "an empty request gave a result")
            continue
        if not op.ret:
            if not short or {k: v for k, v in j.refs.items() if v} != {k: v for k, v in was.items() if v}:
                j.fail(op, "state", "no result")
            continue
        real = [n for n in names if n]
        if asked != real and not short:
            j.fail(op, "api", "the loader was not asked for the names in order")
        if any(h[0] != ("dl" if j.cfg.dl else "ExW" if j.cfg.wide else "ExA") for h in how):
            j.fail(op, "api", "the names went to %s" % sorted({h[0] for h in how}))
        loaded = []
        evs, ei = [e for e in op.ev if e[0] in ("loaded", "loadfail")], 0
        if op.v.get("G") != [len(names)] or len(op.rows) != 2 * len(names):
            j.fail(op, "state", "%d records for %d names" % (len(op.rows) // 2, len(names)))
            return
        for n, fn, h in zip(names, op.rows[0::2], op.rows[1::2]):
            if not n:
                if fn is not None or any(h):
                    j.fail(op, "state", "a record with content for an empty name")
                continue
            if fn != n and not (short and fn is None):
                j.fail(op, "state", "file name %r recorded as %r" % (n[:60], fn and fn[:60]))
            if ei >= len(evs):
                if any(h):
                    j.fail(op, "state", "a handle that was never opened")
                continue
            e = evs[ei]
            ei += 1
            if bool(h[0]) != (e[0] == "loaded"):
                j.fail(op, "state", "%r: handle %s, the loader said %s" % (n[:60], h[0], e[0]))
            if e[0] != "loaded":
                if any(h[1:]):
                    j.fail(op, "state", "pointers without a handle")
                continue
            loaded.append(n)
            have = set(j.m[n][2]) - {fsym}
            for s, v in zip(j.b["syms"], h[1:]):
                if v != (1 if s in have else 0):
                    j.fail(op, "state", "%r: pointer %s is %d, the module has %s" % (n[:60], s, v, sorted(have)))
            j.count("plugins loaded")
        j.plug[int(f[1])] = loaded
    finish(j, ops[i + 1:], res)


JUDGES = {"c": judge_c, "c++": judge_cxx, "plugin": judge_plugin, "minimal": judge_min, "minimal-c++": judge_min}


def run_one(b, m, lines, n):
    """executes one history; returns (violations, judge)"""
    w = b["w"]
    sf = os.path.join(w, "s%d.txt" % n)
    head = []
    for name in sorted(m):
        x = m[name]
        head.append("mod %s %s %s" % (uphex(name), uphex(x[1]), ",".join(x[2])) if x[0] == "mod" else "bad %s %d" % (uphex(name), x[1]))
    open(sf, "w").write("\n".join(head + lines) + "\n")
    res = run2([b["exe"], sf], env=SAN_ENV, timeout=60)
    v = []

    def fail(op, aspect, msg):
        if len(v) < 6:
            v.append((aspect, op.cmd, "op %d (%s): %s" % (op.n, op.cmd, msg)))
    ops, end = parse(res.out)
    if res.timeout:
        fail(ops[-1] if ops else Op(-1, "start"), "crash", "does not end")
        return v, None, res, sf
    if not ops:
        fail(Op(-1, "start"), "crash", res.text())
        return v, None, res, sf
    j = Judge(b, m, fail)
    pre = b"lib" if b["mingw"] else b""
    want = [pre + b"foo-1.2.dll"] * 2 + [b".dll"] * 2 + [pre + b"bar9-0.dll", b".dll"]
    if b["cfg"].fmt == "c++":
        want += [pre + b"b%sz-3.dll"] + ([] if b["cfg"].dl else [pre + b"b%sz-40.dll"])
    if ops[0].names != want:
        fail(ops[0], "names", "library names %s instead of %s" % (ops[0].names, want))
    JUDGES[b["cfg"].fmt](j, lines, ops, res)
    if b"Sanitizer" in res.err or b"runtime error" in res.err:
        fail(ops[-1], "memory", res.err[:2500].decode("utf-8", "replace"))
    if end:
        fail(ops[-1], "memory", "%d message buffers were not freed" % end)
    j.ops = len(ops)
    return v, j, res, sf


def check(c):
    c.rule = ("40 build configurations (five formats x narrow/wide/converting/dlfcn-win32 x C/C++ x separate x prefix x autoload/wrapper/message box) compiled against the emulated API; random histories of loads "
              "(short, long, non-ASCII, not convertible, missing, broken), symbol look-ups, frees, paths (up to and over the buffer), injected failures of every call; non-trivial: every run judged to its end")
    c.assumptions = ["the emulation (harness/win) has the documented semantics of the Windows calls; it stands in for Windows, which is not available here",
                     "a successful call leaves an arbitrary last-error value behind"]
    tool = Tool(c)
    r = c.rng
    jobs = [(k, cfg, r.choice(SHAPES)) for k, cfg in enumerate(CONFIGS)]
    builds = pmap(lambda a: build(c, tool, *a), jobs)
    runs = []
    for b in builds:
        if "fail" in b:
            c.violation("build:%s" % b["cfg"], "generated code does not compile on the emulated platform: %s\n%s" % (b["cfg"], b["fail"]), {"config.txt": str(b["cfg"])})
            continue
        for n in range(c.n(24, 400)):
            m = modules(r, b["cfg"], b["syms"])
            runs.append((b, m, script(r, b["cfg"], b["syms"], b["nfun"], m, r.choice([4, 12, 30, 60])), n))
    for (b, m, lines, n), (v, j, res, sf) in zip(runs, pmap(lambda a: run_one(*a), runs)):
        for aspect, cmd, msg in v:
            c.violation("%s:%s:%s" % (aspect, cmd, re.sub(r"[0-9]+|'.*", "", msg.split(": ", 1)[1])[:50]), "%s\n%s" % (msg, b["cfg"]), {"script.txt": open(sf).read(), "out.txt": res.out, "err.txt": res.err})
        if v:
            continue
        c.case(sha("%d %s %s" % (b["k"], sorted(m), lines)))
        c.count("operations", j.ops)
        for k2, q in j.cover.items():
            c.count(k2.replace(" ", "_"), q)
        c.sample({"configuration": str(b["cfg"]), "script": [l[:80] for l in lines[:12]], "covered": j.cover})
