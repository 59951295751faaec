"""Histories over wrapper functions (R04: must be loaded, R05: load themselves): a client whose
operations load, free and call; loader events, the library's own call log, hooks and callbacks end
in one log that is judged call by call (see DESIGN.md)."""
import os, random, re
from . import decl, gen, prog
from .core import HarnessError, run2
from .gen import HARNESS, Config
from checks.R03 import Program, refs

DEFLIB = "./lib%s%d cur.so"
RTLD_LAZY = 1

CLIENT_C = r'''
static void zz_op(char *a)
{
  if (!strcmp(a, "D")) zzr_i(gdo_load_lib());
  else if (!strcmp(a, "E")) zzr_i(gdo_load_lib_and_symbols());
  else if (a[0] == 'L') zzr_i(gdo_load_lib_name(a + 2));
  else if (!strcmp(a, "A")) zzr_i(gdo_load_all_symbols());
  else if (a[0] == 'S') zzr_i(gdo_load_symbol(zz_num(atoi(a + 2))));
  else if (a[0] == 'N') zzr_i(gdo_load_symbol_name(a + 2));
  else if (!strcmp(a, "F")) zzr_i(gdo_free_lib());
  else if (!strcmp(a, "X")) { gdo_force_free_lib(); zzr_i(2); }
  else exit(88);
}
static int zz_loaded(void) { return gdo_lib_is_loaded(); }
'''

CLIENT_CXX = r'''
static gdo::dl *zz_dl;
static void zz_ma(const char *m) { zzr_end(); printf("msgcb A %s\n", m); fflush(stdout); }
static void zz_mb(const char *m) { zzr_end(); printf("msgcb B %s\n", m); fflush(stdout); }
static void zz_op(char *a)
{
  if (!zz_dl) zz_dl = new gdo::dl(ZZ_DEFLIB);
  if (!strcmp(a, "D")) zzr_i(zz_dl->load());
  else if (!strcmp(a, "E")) zzr_i(zz_dl->load_lib_and_symbols());
  else if (a[0] == 'L') zzr_i(zz_dl->load(a + 2));
  else if (!strcmp(a, "A")) zzr_i(zz_dl->load_all_symbols());
  else if (a[0] == 'S') zzr_i(zz_dl->load_symbol(zz_num(atoi(a + 2))));
  else if (a[0] == 'N') zzr_i(zz_dl->load_symbol(a + 2));
  else if (!strcmp(a, "F")) zzr_i(zz_dl->free());
  else if (!strcmp(a, "X")) { zz_dl->free(true); zzr_i(2); }
  else if (!strcmp(a, "V")) { delete zz_dl; zz_dl = nullptr; zzr_i(2); }
  else if (a[0] == 'B') {
    gdo::dl::msgcb_t f = a[2] == '0' ? nullptr : a[2] == '1' ? zz_ma : zz_mb;
    gdo::dl::message_callback(f);
    if (f) zzr_i(gdo::dl::message_callback() == f); else zzr_i(gdo::dl::message_callback() != nullptr && gdo::dl::message_callback() != zz_ma && gdo::dl::message_callback() != zz_mb);
  }
  else exit(88);
}
static int zz_loaded(void) { return gdo::dl::lib_loaded(); }
'''

MAIN = r'''
static void zz_snap(void)
{
  zzr_begin("snap", "-");
  zzr_i(zz_loaded());
  for (int i = 0; vk_names[i]; i++) zzr_i(zz_ptr(i));
  zzr_end();
}
int main(int argc, char **argv)
{
  if (!freopen(getenv("VK_LOG"), "a", stdout)) return 89;
  zz_snap();
  for (int i = 1; i < argc; i++) {
    if (vk_fault_now(argv[i])) continue;
    zzr_end();
    printf("O %d\n", i);
    fflush(stdout);
    if (argv[i][0] == 'C') zz_call(atoi(argv[i] + 2));
    else if (argv[i][0] == 'Q') { if (argv[i][1] == '=') exit(atoi(argv[i] + 2)); return 0; }
    else { zzr_begin("ret", argv[i]); zz_op(argv[i]); }
    zzr_end();
    zz_snap();
  }
  zzr_end();
  printf("O %d\n", argc);
  fflush(stdout);
  return 0;
}
'''


class WrapProgram(Program):
    """one symbol set with libraries A (complete), B (complete, other file) and M (lacks functions)"""

    def __init__(self, c, r, k, syms):
        super().__init__(c, r, k, syms)
        w = self.w
        self.fn = [i for i, s in enumerate(syms) if s.is_func]
        names = [s.name for s in syms]
        lib = open(w + "/lib.c").read()
        open(w + "/libB.c", "w").write(lib.replace('zzr_begin("call",', 'zzr_begin("callB",'))
        nm = r.randint(1, max(1, len(syms) // 3))
        self.missing = set(r.sample(names, nm))
        open(w + "/m.map", "w").write("{ local: %s; };\n" % " ".join(s + ";" for s in sorted(self.missing)).replace(";;", ";"))
        open(w + "/m.map", "w").write("{ global: *; local: %s };\n" % " ".join(s + ";" for s in sorted(self.missing)))
        self.libs = {"A": self.lib, "B": w + "/libB.so", "M": w + "/libM.so", "Z": w + "/libZ.so", "N": w + "/none.so"}
        gen.cc_run(["gcc", "-O1", "-shared", "-fPIC", "-o", self.libs["B"], w + "/libB.c"] + self.base, "library B")
        gen.cc_run(["gcc", "-O1", "-shared", "-fPIC", "-o", self.libs["M"], w + "/lib.c", "-Wl,--version-script=" + w + "/m.map"] + self.base, "library M")
        open(self.libs["Z"], "w").write("no library\n")
        self.exports = {"A": set(names), "B": set(names), "M": set(names) - self.missing}
        self.seg = {x: self.segments(x) for x in (False, True)}
        self.cbi = names.index("vkz_cb")
        self.api = names.index("vkz_apply")
        # working directories: what the default library is
        self.cwd = {}
        for t in "ABMZN":
            d = w + "/cwd" + t
            os.makedirs(d, exist_ok=True)
            if t != "N":
                os.symlink(self.libs[t], os.path.join(d, DEFLIB[2:]))
            self.cwd[t] = d

    def segments(self, cxx):
        """what a direct program prints for each function: {number: lines}"""
        w = self.w
        hdr = "\n".join("extern %s;" % s.canon() for s in self.syms)
        if cxx:
            hdr = 'extern "C" {\n%s\n}' % hdr
        cbs, parts = self.g.client_parts(lambda s: s.name, False, True)
        src = w + "/seg" + (".cpp" if cxx else ".c")
        open(src, "w").write('#include "zzrt.h"\n#include <stdio.h>\n%s\n%s\n%s\nint main(void) { for (int i = 0; i < %d; i++) { zzr_end(); printf("O %%d\\n", i); fflush(stdout); zz_call(i); zzr_end(); } return 0; }\n' % (hdr, cbs, self.switch(parts), len(self.syms)))
        gen.cc_run(["g++" if cxx else "gcc", "-O1", "-fPIC", src, w + "/zzrt.o", "-rdynamic", "-o", src + ".exe", self.lib, "-Wl,-rpath," + w] + self.base, "direct program")
        r = run2([src + ".exe"], cwd=w)
        if r.rc != 0:
            raise HarnessError("direct program: " + r.text())
        res = {}
        for part in r.out.decode("utf-8", "replace").split("O ")[1:]:
            n, _, t = part.partition("\n")
            res[int(n)] = t.rstrip("\n").split("\n") if t.strip("\n") else []
        return res

    @staticmethod
    def switch(parts):
        return "static void zz_call(int k) {\n switch (k) {\n" + "\n".join(" case %d: {\n%s\n } break;" % (i, "\n".join("  " + l for l in b)) for i, b in parts) + "\n default: break;\n }\n}"

    def build(self, tool, cfg, tag, r):
        """builds the client for one configuration -> Client"""
        w = os.path.join(self.w, tag)
        os.makedirs(w, exist_ok=True)
        cl = Client()
        cl.cfg, cl.p = cfg, self
        pfx = gen.rename("GDO_", cfg.prefix) if cfg.prefix else "GDO_"
        defs = [d.replace("GDO_", pfx, 1) for d in cfg.defs] + [pfx + "DISABLE_WARNINGS"]
        cl.auto = any("AUTOLOAD" in d for d in cfg.defs)
        cl.lazy = any("LAZY" in d for d in cfg.defs)
        cxx = cfg.fmt == "c++"
        cxxc = cxx or cfg.lang == "c++"
        cl.cxx = cxx
        hdr = "vkhdr" + (".hpp" if cxx else ".h")
        args = ["-", "-format=" + cfg.fmt, "-param=" + cfg.param, "-no-date", "-out=" + hdr, "-library=" + DEFLIB] + (["-separate"] if cfg.separate else []) + (["-prefix=" + cfg.prefix] if cfg.prefix else []) + list(cfg.opts)
        rr = tool.run(args, stdin=(self.inputs_nonames if cfg.param == "create" else self.inputs).encode(), cwd=w)
        if rr.rc != 0:
            raise HarnessError("generator fails: %s\n%s" % (args, rr.text()))
        cl.hooked, hooktext, hookmac, cl.rawhook = set(), [], [], False
        for i in self.fn:
            if r.random() < 0.5:
                continue
            s = self.syms[i]
            cl.hooked.add(i)
            hooktext += self.g.logging_fn("hook", s.name, decl.Fn(decl.Base("void"), s.type.params, s.type.variadic), "zz_hook%d" % i)
            if s.name == "vkz_add" and r.random() < 0.5:
                # the documented example: parameter names, and the function itself through its raw name
                cl.rawhook = True
                a, b = ("a", "b") if cfg.param == "read" else ("a1", "a2")
                hooktext.append("static void zz_rawhook(int x, int y, int z) { zzr_begin(\"rawhook\", \"\"); zzr_i(x); zzr_i(y); zzr_i(z); zzr_end(); }")
                hookmac.append("#define GDO_HOOK_vkz_add(...) zz_rawhook(%s, %s, GDO_RAWPTR_vkz_add(__VA_ARGS__))" % (a, b))
            else:
                hookmac.append("#define GDO_HOOK_%s(...) zz_hook%d(__VA_ARGS__)" % (s.name, i))
        cbs, parts = self.g.client_parts(refs(cfg, "GDO_"), True, True)
        names = [s.name for s in self.syms]
        tabs = ['#ifdef __cplusplus\nextern "C" {\n#endif\nextern const char *const vk_names[]; const char *const vk_names[] = { %s, 0 };\n#ifdef __cplusplus\n}\n#endif' % ", ".join('"%s"' % n for n in names)]
        tabs.append("static int zz_num(int i) { switch (i) {\n%s\n } return 9999; }" % "\n".join(" case %d: return GDO_LOAD_%s;" % x for x in enumerate(names)))
        tabs.append("static int zz_ptr(int i) { switch (i) {\n%s\n } return 0; }" % "\n".join(" case %d: return GDO_RAWPTR_%s != NULL;" % x for x in enumerate(names)))
        text = "\n".join(['#include "zzrt.h"', '#include "shim.h"', "#include <stdio.h>", "#include <stdlib.h>", "#include <string.h>"] + hooktext + hookmac + ['#include "%s"' % hdr] + tabs + [cbs, self.switch(parts), CLIENT_CXX if cxx else CLIENT_C, MAIN])
        if cfg.prefix:
            text = "\n".join(gen.rename(l, cfg.prefix) if "gdo" in l.lower() else l for l in text.split("\n"))
        src = os.path.join(w, "prog" + (".cpp" if cxxc else ".c"))
        cl.tus = getattr(cfg, "tus", 1)
        more = []
        if cl.tus > 1:
            # the same operations in further source files; the program picks one per operation
            part = text[:text.index("static int zz_loaded(void)")] + text[text.index("static int zz_loaded(void)"):].split("\n", 1)[0] + "\n"
            part = re.sub(r'#ifdef __cplusplus\nextern "C" \{\n#endif\nextern const char \*const vk_names.*?#endif\n', "", part, flags=re.S)
            part += "#ifdef __cplusplus\nextern \"C\" {\n#endif\nvoid zz_tu%d(char *a) { if (a[0] == 'C') zz_call(atoi(a + 2)); else { zzr_begin(\"ret\", a); zz_op(a); } }\nint zz_view%d(int i) { return i < 0 ? zz_loaded() : zz_ptr(i); }\n#ifdef __cplusplus\n}\n#endif\n"
            for t in range(1, cl.tus):
                f = os.path.join(w, "prog%d%s" % (t, ".cpp" if cxxc else ".c"))
                open(f, "w").write(part.replace("zz_tu%d", "zz_tu%d" % t).replace("zz_view%d", "zz_view%d" % t))
                more.append(f)
            text = multi_main(text, cl.tus)
        open(src, "w").write(text)
        cl.src = src
        flags = [cfg.olevel] + self.base + ["-I" + w, '-DZZ_DEFLIB="%s"' % DEFLIB] + gen.san_flags(cfg) + ["-D" + d for d in defs]
        std = ["-std=" + cfg.std] if cfg.std else []
        ccx = {"gcc": ("gcc", "g++"), "clang": ("clang", "clang++")}[cfg.cc][cxxc]
        objs = []
        for f in [src] + more + ([os.path.join(w, "vkhdr" + (".cpp" if cxx else ".c"))] if cfg.separate else []):
            isx = f.endswith(".cpp")
            gen.cc_run([ccx if isx == cxxc else cfg.cc, "-c", f, "-o", f + ".o"] + flags + (std if isx == cxxc else []), "client (%r)" % cfg)
            gen.redirect(f + ".o")
            objs.append(f + ".o")
        so = os.path.join(w, "shim.o")
        gen.cc_run([cfg.cc, "-O1", "-w", "-I" + HARNESS, "-c", os.path.join(HARNESS, "shim.c"), "-o", so] + gen.SAN[cfg.san], "shim")
        cl.exe = src + ".exe"
        gen.cc_run([ccx] + objs + [so, self.w + "/zzrt.o", "-rdynamic", "-o", cl.exe, "-ldl"] + gen.SAN[cfg.san], "client link (%r)" % cfg)
        return cl


def multi_main(text, n):
    """main() that lets several source files act, and compares what they see"""
    ext = "#ifdef __cplusplus\nextern \"C\" {\n#endif\n" + "".join("void zz_tu%d(char *); int zz_view%d(int);\n" % (t, t) for t in range(1, n)) + "#ifdef __cplusplus\n}\n#endif\n"
    views = "".join("  if (zz_view%d(i) != (i < 0 ? zz_loaded() : zz_ptr(i))) printf(\"source file %d sees another state of %%d\\n\", i);\n" % (t, t) for t in range(1, n))
    text = text.replace("static void zz_snap(void)\n{\n", ext + "static void zz_snap(void)\n{\n  for (int i = -1; i < 0 || vk_names[i]; i++) {\n" + views + "  }\n  fflush(stdout);\n")
    call = "    if (argv[i][0] != 'Q' && getenv(\"VK_TU\")[i %% 16] != '0') { switch (getenv(\"VK_TU\")[i %% 16]) { %s } }\n    else if" % " ".join("case '%d': zz_tu%d(argv[i]); break;" % (t, t) for t in range(1, n)).replace("%", "%%")
    return text.replace("    if (argv[i][0] == 'C')", call.replace("%%", "%") + " (argv[i][0] == 'C')")


class Client:
    """an executable and how to judge its runs"""
    n = 0

    def run(self, ops, deflib):
        Client.n += 1
        log = os.path.join(os.path.dirname(self.exe), "log%d.%d" % (os.getpid(), id(ops)))
        env = {"VK_LOG": log}
        if self.tus > 1:
            h = random.Random(repr(ops))
            env["VK_TU"] = "".join(str(h.randrange(self.tus)) for _ in range(16))
        if self.cfg.san != "plain":
            env.update(gen.SAN_ENV)
        r = run2([self.exe] + ops, cwd=self.p.cwd[deflib], env=env, timeout=60)
        text = open(log, encoding="utf-8", errors="replace").read() if os.path.exists(log) else ""
        if os.path.exists(log):
            os.unlink(log)
        return r, text

    # ------------------------------------------------------------ expected trace of one function
    def segment(self, k, lib):
        res = []
        for l in self.p.seg[self.cxx or self.cfg.lang == "c++"][k]:
            f = l.split(" ")
            if f[0] == "call":
                i = next((i for i in self.p.fn if self.p.syms[i].name == f[1]), None)
                call = "callB" if lib == "B" else "call"
                if i in self.hooked:
                    if f[1] == "vkz_add" and self.rawhook:
                        res += ["%s %s" % (call, " ".join(f[1:])), "rawhook  %s %s %d" % (f[2], f[3], int(f[2]) + int(f[3]))]
                    else:
                        res.append("hook " + " ".join(f[1:]))
                l = call + l[4:]
            res.append(l)
        return res

    def judge(self, ops, deflib, r, log, report, stats):
        """report(aspect, text)"""
        p = self.p
        names = [s.name for s in p.syms]
        real = {os.path.realpath(v): k for k, v in p.libs.items()}
        segs, cur = [], (0, [])
        for l in log.split("\n"):
            m = re.match(r"O (\d+)$", l)
            if m:
                segs.append(cur)
                cur = (int(m.group(1)), [])
            else:
                cur[1].append(l)
        segs.append(cur)
        state = None
        opened, lib, autoloaded, faults, fsyms, msgcb = {}, None, False, {}, set(), 0
        closefault = False
        done = set()
        died = None
        seen = {n: ls for n, ls in segs}
        pos = [i for i, a in enumerate(ops, 1) if not a.startswith("fault")]
        err = r.err.decode("utf-8", "replace")
        for i in [0] + list(range(1, len(ops) + 1)):
            a = ops[i - 1] if i else ""
            if a.startswith("faultclear"):
                faults, fsyms = {}, set()
                continue
            if a.startswith("fault "):
                f = a.split()
                if f[1] == "sym":
                    fsyms.add(f[2])
                else:
                    faults[f[1]] = int(f[2])
                continue
            if i not in seen:
                if died is None:
                    report("crash", "operation %d (%s) was not reached: status %s\n%s" % (i, a, r.rc, err[-800:]))
                    return
                break
            if died is not None:
                report("crash", "the program went on after %s" % died)
                return
            lines = [l for l in seen[i] if l]
            ev = [l for l in lines if l.startswith("E ")]
            snap = [l for l in lines if l.startswith("snap -")]
            trace = [l for l in lines if not l.startswith(("E ", "snap -"))]
            opens = []
            for j, l in enumerate(ev):
                f = l.split(" ")
                if f[1] == "open":
                    path = bytes.fromhex(ev[j + 1].split(" ")[2][1:]).decode("utf-8", "replace")
                    t = real.get(os.path.realpath(os.path.join(p.cwd[deflib], path)))
                    opened[int(f[2])] = t
                    opens.append((path, f[3], f[4], t))
                    lib = t
                elif f[1] == "close":
                    opened.pop(int(f[2]), None)
                elif f[1] == "bad":
                    report("handles", "operation %d (%s): %s" % (i, a, l))
                elif f[1] == "closefault":
                    closefault = True
            new = None
            if snap:
                f = snap[-1].split(" ")[2:]
                new = (f[0] == "1", [x == "1" for x in f[1:]])
            if a[:1] == "C":
                k = int(a[2:])
                stats("calls")
                died = self.judge_call(i, a, k, state, new, lib, deflib, lines, ev, trace, opens, faults, fsyms, msgcb, r, err, report, stats)
                if died == "bad":
                    return
                if self.auto and (opens or any(l.startswith("E atexit") for l in ev)):
                    autoloaded = autoloaded or any(l.startswith("E sym") for l in ev)
            elif a[:1] == "B":
                msgcb = int(a[2])
                if trace != ["ret %s 1" % a]:
                    report("callback", "operation %d (%s): %s" % (i, a, trace))
            elif a[:1] == "Q":
                died = "exit"
                if r.rc != (int(a[2:]) if a[1:2] == "=" else 0):
                    report("crash", "exit status %s\n%s" % (r.rc, err[-1500:]))
                    return
            for kf in ("openfault", "closefault", "atexitfault"):
                n = sum(l.startswith("E " + kf) for l in ev)
                if n and kf[:-5] in faults:
                    faults[kf[:-5]] = max(0, faults[kf[:-5]] - n)
            if new is not None:
                state = new
            elif died is None:
                report("crash", "operation %d (%s) did not return: status %s\n%s" % (i, a, r.rc, err[-1500:]))
                return
        for l in seen.get(len(ops) + 1, []):          # while the program ends
            f = l.split(" ")
            if l.startswith("E close "):
                opened.pop(int(f[2]), None)
            elif l.startswith("E bad"):
                report("handles", "at exit: %s" % l)
            elif l.startswith("E closefault"):
                closefault = True
            elif l:
                if not l.startswith("E err"):
                    report("call", "at exit: %r" % l)
        if died is None and r.rc != 0:
            report("crash", "exit status %s\n%s" % (r.rc, err[-1500:]))
            return
        if died is None or died == "exit":
            if err:
                report("message", "unexpected text on standard error: %r" % err[:500])
        if self.auto and autoloaded and opened and not closefault and not any("atexitfault" in l for l in log.split("\n")):
            report("release", "libraries still open after the program ended: %s" % sorted(opened.items()))
        return

    def judge_call(self, i, a, k, state, new, lib, deflib, lines, ev, trace, opens, faults, fsyms, msgcb, r, err, report, stats):
        p = self.p
        names = [s.name for s in p.syms]
        where = "operation %d: %s()" % (i, names[k])
        loaded, ptr = state[0], list(state[1])
        need = [k] + ([p.cbi] if k == p.api else [])
        dead, death_lib = None, lib
        want_opens = 0
        tag = lib if loaded else None
        loads = []
        for f in need:
            if ptr[f]:
                continue
            if not self.auto:
                dead = f
                break
            loads.append(f)
            if not loaded:
                if deflib in "ZN" or faults.get("open", 0) > 0:
                    dead = f
                    break
                want_opens += 1
                loaded, tag = True, deflib
            exp = p.exports.get(tag, set()) - fsyms
            if not self.lazy and any(ptr[x] and names[x] in fsyms for x in range(len(ptr))):
                stats("not_judged")            # a loaded symbol that cannot be looked up again: either result is right
                return "bad"
            req = [f] if self.lazy else [x for x in range(len(ptr)) if not ptr[x]]
            if any(names[x] not in exp for x in req):
                dead = f
                break
            for x in req:
                ptr[x] = True
        full = self.segment(k, tag)
        cut = full
        if dead is not None:
            # up to the call: the arguments are evaluated before
            j = next(j for j, l in enumerate(full) if re.match(r"(hook|callB?) %s( |$)" % names[dead], l))
            cut = full[:j]
            if msgcb and self.cxx:
                cut = cut + ["msgcb"]
        got = [("msgcb" if l.startswith("msgcb ") else l) for l in trace]
        if got != cut:
            for j in range(max(len(got), len(cut))):
                x, y = got[j] if j < len(got) else "(nothing)", cut[j] if j < len(cut) else "(nothing)"
                if x != y:
                    break
            report("call", "%s (lib %s, symbol %s): line %d of its trace is %r, expected %r (after %r)\nstatus %s, stderr %r" % (where, tag, "loaded" if state[1][k] else "not loaded", j, x, y, got[max(0, j - 2):j], r.rc, err[-600:]))
            return "bad"
        # loader activity
        if not loads:
            if ev:
                report("load", "%s: loader used although the symbol is loaded (or must not load itself): %s" % (where, ev[:4]))
        else:
            stats("automatic_loads")
            if dead is None and len(opens) != want_opens or len(opens) > want_opens:
                report("load", "%s: %d libraries opened, expected %d" % (where, len(opens), want_opens))
            for o in opens:
                if o[0] != DEFLIB or o[1] != "flags=%d" % RTLD_LAZY or o[2] != "ns=0":
                    report("load", "%s: opened %s" % (where, o))
            if self.lazy:
                asked = {l.split(" ")[3] for l in ev if re.match(r"E sym(fault|fail)? ", l)}
                if asked - {names[f] for f in need}:
                    report("load", "%s: lazy loading asked for other symbols: %s" % (where, sorted(asked)))
            for f in loads:
                s = [j for j, l in enumerate(lines) if re.match(r"E sym \d+ %s " % names[f], l)]
                t = [j for j, l in enumerate(lines) if re.match(r"(hook|callB?) %s( |$)" % names[f], l)]
                if t and (not s or s[0] > t[0]):
                    report("load", "%s was called before it was loaded" % names[f])
        if dead is None:
            if new is None:
                report("crash", "%s did not return: status %s\n%s" % (where, r.rc, err[-1500:]))
                return "bad"
            if new != (loaded, ptr):
                report("load" if self.auto else "call", "%s: loaded symbols afterwards %s, expected %s" % (where, new, (loaded, ptr)))
            return None
        stats("refused_calls")
        name = names[dead]
        if msgcb and self.cxx:
            msgs = [l[6:] for l in trace if l.startswith("msgcb ")]
            tagc = "AB"[msgcb - 1]
            if err:
                report("message", "%s: standard error %r although a callback is set" % (where, err[:300]))
            text = msgs[0]
            if not text.startswith(tagc + " "):
                report("callback", "%s: callback %s was set, called: %r" % (where, tagc, text))
            text = text[2:] + "\n"
        else:
            text = err
        if not self.auto:
            want = "fatal error: %s: %s not loaded\n" % (name, "symbol" if state[0] else "library")
            if text != want:
                report("message", "%s: message %r, expected %r" % (where, text[:500], want))
            if r.rc != -6:
                report("abort", "%s: status %s, expected abort" % (where, r.rc))
        else:
            exp = p.exports.get(tag, set()) - fsyms
            miss = [names[x] for x in range(len(ptr)) if names[x] not in exp]
            m = re.match(r"error: (?:(.*): )??%s: (.+)\n\Z" % re.escape(name), text, re.S)
            if not m or "\n" in text[:-1]:
                report("message", "%s: message %r" % (where, text[:500]))
            elif DEFLIB not in text and not any(x in m.group(2) for x in miss):
                report("message", "%s: message %r names neither the library nor a missing symbol" % (where, text[:500]))
            if m and m.group(1) not in (None, DEFLIB):
                report("message", "%s: message %r names another library" % (where, text[:500]))
            if m and loaded and tag in p.exports:
                # the library is open, so what is missing is a symbol: the loader's words
                errs = [bytes.fromhex(l.split(" ")[2][1:]).decode("utf-8", "replace") for l in ev if l.startswith("E err x")]
                if errs and not any(e in m.group(2) for e in errs):
                    report("message", "%s: message %r does not give the loader's reason %r" % (where, text[:500], errs[-1][:300]))
            if r.rc != 1:
                report("abort", "%s: status %s, expected 1" % (where, r.rc))
        return "refused call"
