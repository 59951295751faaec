"""Programs of several parts: one generated interface used from several source files (R11), or
several interfaces with different prefixes in one program (T11)."""
import os, re
from . import decl, gen, hist
from .core import HarnessError
from .gen import HARNESS

MODELS = {"c": ("drv_c.c", hist.CModel), "c++": ("drv_cxx.cpp", hist.CxxModel), "minimal": ("drv_min.c", hist.MinModel), "minimal-c++": ("drv_mincxx.cpp", hist.MinCxxModel)}
RAW = {"c": "GDO_RAWPTR_%s", "c++": "GDO_RAWPTR_%s", "minimal": "gdo_hndl.GDO_PTR_%s", "minimal-c++": "gdo::GDO_PTR_%s"}


class Part:
    """one part: cfg, the interface's symbols (functions first), header, source language, and
    `state': parts with equal state share their interface"""

    def __init__(self, cfg, syms, hdr, cxx, state):
        self.cfg, self.syms, self.hdr, self.cxx, self.state = cfg, syms, hdr, cxx, state


def part_text(p, k, first):
    drv = MODELS[p.cfg.fmt][0]
    text = open(os.path.join(HARNESS, drv)).read()
    tab = gen.tables(p.syms, p.cfg, RAW[p.cfg.fmt], nums=p.cfg.fmt in ("c", "c++"))
    tab = tab[tab.index("#endif\n", tab.index("0 };")) + 7:]                     # without vk_names
    if p.cfg.prefix:
        text = "\n".join(gen.rename(l, p.cfg.prefix) for l in text.split("\n"))
        tab = re.sub(r"\bGDO_(RAWPTR|LOAD|PTR|ENUM)_", lambda m: gen.rename("GDO_", p.cfg.prefix) + m.group(1) + "_", tab)
        tab = tab.replace("gdo_hndl", gen.rename("gdo_hndl", p.cfg.prefix)).replace("gdo::", gen.rename("gdo", p.cfg.prefix) + "::")
    text = text.replace("#include VK_HEADER", '#include "%s"' % os.path.basename(p.hdr)).replace('#include "vk_tables.inc"', tab)
    text = text.replace('# include "main.inc"', "")
    if p.cfg.fmt == "c++":
        ns = gen.rename("gdo", p.cfg.prefix) if p.cfg.prefix else "gdo"
        i = text.index("static std::string str")
        text = text[:i] + ("%s::dl *obj[64];\n" % ns if first else "extern %s::dl *obj[64];\n" % ns) + text[i:]
        text = re.sub(r"\bobj\b", "vk_obj_%d" % p.state, text)
    text = re.sub(r"\b(snap|step|fin|str|vk_nums|vk_ptr|VK_COUNT)\b", r"\1_p%d" % k, text)
    text += '\n#ifdef __cplusplus\nextern "C" {\n#endif\nstruct vk_part { void (*snap)(const char *); int (*step)(const char *, char *); void (*fin)(int *); };\n'.replace("vk_part", "vk_part_t%d" % k)
    text += "extern struct vk_part_t%d vk_part_%d;\nstruct vk_part_t%d vk_part_%d = { snap_p%d, step_p%d, fin_p%d };\n#ifdef __cplusplus\n}\n#endif\n" % (k, k, k, k, k, k, k)
    return text


def build(w, parts, units, bodies, names, san="plain", flags=()):
    """units: lists of part numbers that make one source file; bodies: [(file, cfg, C++?)].
    Returns the executable. Compile failures are HarnessErrors."""
    open(os.path.join(w, "vk_prelude.h"), "w").write(decl.PRELUDE)
    firsts, done = set(), set()
    for k, p in enumerate(parts):
        if p.state not in done:
            done.add(p.state)
            firsts.add(k)
    srcs = []
    anyx = False
    for n, u in enumerate(units):
        cxx = any(parts[k].cxx for k in u)
        anyx = anyx or cxx
        f = os.path.join(w, "unit%d%s" % (n, ".cpp" if cxx else ".c"))
        open(f, "w").write("#define VK_MULTI 1\n" + "\n".join(part_text(parts[k], k, k in firsts) for k in u))
        cfg = parts[u[0]].cfg
        srcs.append((f, cfg, cxx, [d for k in u for d in parts[k].cfg.defs]))
    for f, cfg, cxx in bodies:
        anyx = anyx or cxx
        srcs.append((f, cfg, cxx, cfg.defs))
    objs, client = [], []
    for f, cfg, cxx, defs in srcs:
        cc = {"gcc": ("gcc", "g++"), "clang": ("clang", "clang++")}[cfg.cc][cxx]
        std = cfg.std
        if std and ("++" in std) != cxx:
            std = None
        argv = [cc, cfg.olevel, "-w", "-include", os.path.join(w, "vk_prelude.h"), "-I" + w, "-I" + HARNESS] + gen.SAN[san] + ["-D" + d for d in dict.fromkeys(defs)] + (["-std=" + std] if std else []) + list(flags)
        try:
            gen.cc_run(argv + ["-c", f, "-o", f + ".o"], "part (%s)" % cfg)
        except HarnessError:
            if not os.path.basename(f).startswith("unit"):
                raise
            gen.cc_run(argv + ["-DVK_NO_ERRBUF", "-c", f, "-o", f + ".o"], "part (%s)" % cfg)
        client.append(f + ".o")
    n = len(parts)
    inc = ["struct vk_part { void (*snap)(const char *); int (*step)(const char *, char *); void (*fin)(int *); };"]
    inc += ["extern struct vk_part vk_part_%d;" % k for k in range(n)]
    inc += ["static struct vk_part *const parts[] = { %s };" % ", ".join("&vk_part_%d" % k for k in range(n)), "#define VK_PARTS %d" % n]
    inc += ["const char *const vk_names[] = { %s, 0 };" % ", ".join('"%s"' % x for x in names)]
    open(os.path.join(w, "vk_multi.inc"), "w").write("\n".join(inc) + "\n")
    for s in ("multi.c", "shim.c"):
        o = os.path.join(w, s + ".o")
        gen.cc_run(["clang" if san == "msan" else "gcc", "-O1", "-w", "-I" + w, "-I" + HARNESS] + (gen.SAN[san] if s == "shim.c" else []) + ["-c", os.path.join(HARNESS, s), "-o", o], s)
        objs.append(o)
    for o in client:
        gen.redirect(o)
    exe = os.path.join(w, "multi.exe")
    ccs = {x[1].cc for x in srcs}
    ld = ("clang++" if anyx else "clang") if ccs == {"clang"} else ("g++" if anyx else "gcc")
    gen.cc_run([ld] + gen.SAN[san] + client + objs + ["-o", exe, "-ldl"], "link (%s)" % [p.cfg for p in parts])
    return exe


class MStep(hist.Step):
    __slots__ = ("part", "views")


def parse(log):
    """log -> steps with the acting part and everybody's view"""
    steps, heads = hist.parse(log), []
    cur = None
    for l in log.splitlines():
        f = l.split(" ")
        if f[0] == "O":
            cur = dict(part=int(f[3]) if len(f) > 3 else None, views={})
            heads.append(cur)
        elif f[0] == "V" and cur is not None:
            cur["views"][int(f[1])] = hist.Snap(f[2:])
    return list(zip(steps, heads))


def ev_id(e):
    """handle an event is about"""
    if e[0] in ("open", "close", "sym", "symfail", "symfault", "closefault", "dlinfo", "dlinfofault", "file", "addr"):
        return int(e[1])
    return None


def judge(parts, models, script, log, report):
    """models: state -> model. Returns (operations judged, cross-part state comparisons)"""
    steps = parse(log)
    lines = [l for l in script if l.strip()]
    if not steps:
        report("crash", None, "no start")
        return 0, 0
    owner = {}
    compared = judged = 0
    st, h = steps[0]
    prev = {}
    for s, m in models.items():
        ks = [k for k, p in enumerate(parts) if p.state == s]
        st.snap = h["views"].get(ks[0])
        m.ld.feed(st)
        if not m.check_snap(st):
            return 0, 0
        m.prev = st.snap
    prev = dict(h["views"])
    i = 1
    for l in lines:
        if l.startswith("fault"):
            for m in models.values():
                m.arm(l)
            continue
        k, line = int(l[1:].split(" ")[0]), l.split(" ", 1)[1]
        if line.startswith("exit"):
            break
        if i >= len(steps):
            report("crash", steps[-1][0], "the program ended before operation %d (%s)" % (i - 1, l[:100]))
            return judged, compared
        st, h = steps[i]
        i += 1
        judged += 1
        s = parts[k].state
        st.snap = h["views"].get(k)
        for e in st.ev:
            n = ev_id(e)
            if e[0] == "open":
                owner[n] = s
            elif n is not None and owner.get(n, s) != s:
                report("isolation", st, "an operation of part %d used the library handle of another interface: %s" % (k, " ".join(e[:3])))
                return judged, compared
        m = models[s]
        if not m.step(st, line):
            return judged, compared
        for j, v in h["views"].items():
            if j == k:
                continue
            compared += 1
            if parts[j].state == s:
                if v.key() != st.snap.key():
                    report("sharing", st, "source files see different states: %s and %s" % (st.snap.key(), v.key()))
                    return judged, compared
            elif v.key() != prev[j].key():
                report("isolation", st, "an operation of part %d changed the state of the interface of part %d: %s -> %s" % (k, j, prev[j].key(), v.key()))
                return judged, compared
        for m2 in models.values():
            if m2 is not m and m2.prev is not None:
                pass
        prev = dict(h["views"])
    # the end: destruction of objects in order of the parts, then automatic release
    rest = [x[0] for x in steps[i:]]
    dele = [x for x in rest if x.cmd == "delend"]
    tail = [x for x in rest if x.cmd != "delend"]
    seen = set()
    for p in parts:
        m = models[p.state]
        if p.state in seen:
            continue
        seen.add(p.state)
        if isinstance(m, hist.CxxModel):
            mine, dele = dele[:len(m.o)], dele[len(m.o):]
            m.finish_objects(mine)
    for s, m in models.items():
        last = None
        for st in tail:
            mine = [e for e in st.ev if ev_id(e) is None or owner.get(ev_id(e)) == s]
            st2 = hist.Step(st.n, st.cmd)
            st2.ev = mine
            m.ld.feed(st2)
            last = st2
            if any(e[0] == "closefault" for e in mine):
                m.orphans.add(m.cur)
        if last is not None and getattr(m, "autorel", False):
            left = set(m.ld.open) - m.orphans
            if left:
                report("handles", last, "handles %s are still open after automatic release" % sorted(left))
        m.ended = True
    return judged, compared
