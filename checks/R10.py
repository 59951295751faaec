"""R10: plugins load, fail and are released independently of each other."""
import re
from vk import gen, hist
from vk.core import HarnessError, pmap, sha
from vk.gen import Config, uphex
from vk.rbuild import build_all, min_configs, names_for
from vk.tool import Tool

TECHNIQUE = "runtime monitoring: random plugin lists and fault-injected load/release histories through a loader shim, each record compared with the recorded loader events; LeakSanitizer for the memory"
LEVEL_NOTE = "exploration: random declaration sets, lists of up to 40 files (present, absent, broken, empty, repeated), overlapping results, injected open/symbol/close/allocation failures"


def plugin_configs(n, san):
    base = [dict(), dict(cc="clang"), dict(separate=True), dict(defs=["GDO_STATIC"]), dict(param="skip"), dict(lang="c++"), dict(std="c99", cc="clang"), dict(prefix="My_Lib"), dict(defs=["GDO_DEFAULT_FLAGS=2"]), dict(olevel="-O3"),
            dict(separate=True, cc="clang", std="c11", olevel="-O0"), dict(lang="c++", cc="clang", defs=["GDO_STATIC"])]
    return [Config(fmt="plugin", san=san, **base[i % len(base)]) for i in range(n)]


def build(c, tool, r, k, cfg, driver):
    w = c.mkdir("b%d" % k)
    syms = names_for(r, k)
    libs = gen.libset(c, r, w, syms, str(k))
    cfg = Config(**dict(cfg.__dict__))
    if cfg.prefix:
        cfg.defs = [gen.rename(d, cfg.prefix) for d in cfg.defs]
    hdr, body = gen.generate(c, tool, w, syms, cfg)
    order = [s for s in syms if s.is_func] + [s for s in syms if not s.is_func]
    tab = gen.tables([], cfg, nums=False).replace("const vk_names[] = {", "const vk_names[] = {\n" + "".join('  "%s",\n' % s.name for s in order))
    i = tab.index("static uintptr_t vk_ptr")
    tab = tab[:i] + "static uintptr_t vk_ptr(gdo_handle_t *h, int i) {\n  switch (i) {\n" + "".join("  case %d: return (uintptr_t)h->ptr.%s;\n" % (n, s.name) for n, s in enumerate(order)) + "  } return 0; }\n"
    if cfg.prefix:
        tab = tab.replace("gdo_handle_t", gen.rename("gdo_handle_t", cfg.prefix))
    exe = gen.build_driver(c, w, cfg, driver, order, hdr, body, tables_text=tab)
    flags = next((int(d.split("=")[1]) for d in cfg.defs if "FLAGS=" in d), hist.RTLD_LAZY)
    return dict(w=w, syms=[s.name for s in order], libs=libs, byp={l.path: l for l in libs.values()}, cfg=cfg, exe=exe, k=k, flags=flags)


def script(r, names, libs, n):
    out, used = [], set()
    keys = sorted(libs)
    good = [k for k in keys if libs[k].openable]

    def fname():
        q = r.random()
        return None if q < 0.06 else "" if q < 0.12 else libs[r.choice(good if r.random() < 0.7 else keys)].path
    for _ in range(n):
        if r.random() < 0.3:
            k = r.randrange(8)
            out.append("fault sym " + r.choice(names) if k < 3 else "fault open %d" % r.choice([1, 1, 2, 5]) if k == 3 else "fault close %d" % r.choice([1, 2]) if k == 4 else "fault alloc %d" % r.choice([1, 1, 2, 2, 3, 4, 9]) if k == 5 else "faultclear")
        q = r.random()
        if q < 0.5 and len(used) < 6:
            k = next(i for i in range(32) if i not in used)
            used.add(k)
            out.append("plug %d " % k + " ".join(uphex(fname()) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 10, 40]))))
        elif q < 0.6:
            out.append("plugnull %d" % r.choice([0, 1, 7]))
        elif q < 0.65:
            out.append("relnull")
        elif used:
            k = r.choice(sorted(used))
            if r.random() < 0.3:
                out.append("show %d" % k)
            else:
                used.discard(k)
                out.append("rel %d" % k)
    out += ["rel %d" % k for k in sorted(used)]
    return out


def parse(log):
    steps = []
    for l in log.splitlines():
        f = l.split(" ")
        if f[0] == "O":
            st = hist.Step(int(f[1]), f[2])
            st.paths = dict(num=None, recs=[], names=[], null=False)
            steps.append(st)
        elif f[0] == "E":
            steps[-1].ev.append(f[1:])
        elif f[0] == "G":
            p = steps[-1].paths
            if f[1] == "null":
                p["null"] = True
            elif f[1] == "num":
                p["num"] = int(f[2])
            else:
                p["recs"].append([0 if x == "(nil)" else int(x, 16) for x in f[3:]])
        elif f[0] == "N":
            steps[-1].paths["names"].append(hist.unhex(f[1]))
        elif f[0] == "R":
            steps[-1].ret = 0
    return steps


class Model:
    def __init__(self, b, fail):
        self.b, self.fail = b, fail
        self.ld = hist.Loader(fail)
        self.slots, self.fsyms, self.ids, self.loads, self.nomem = {}, set(), {}, 0, 0

    def step(self, st, line):
        f = line.split()
        syms, libs = self.b["syms"], self.b["byp"]
        opened, faulted, cur = {}, {}, None
        for e in st.ev:
            if e[0] == "open":
                cur = ("o", int(e[1]))
                self.ids[int(e[4][2:], 16)] = int(e[1])
                if int(e[2][6:]) != self.b["flags"]:
                    self.fail("state", st, "opened with flags %s, not %d" % (e[2], self.b["flags"]))
            elif e[0] in ("openfault", "openfail"):
                cur = (e[0], None)
            elif e[0] == "path":
                d = opened if cur[0] == "o" else faulted if cur[0] == "openfault" else None
                if d is not None:
                    d.setdefault(hist.unhex(e[1]), []).append(cur[1])
        before = dict(self.ld.open)
        self.ld.feed(st)
        if st.ret is None:
            self.fail("crash", st, "the operation did not return")
            return False
        g = st.paths
        if f[0] == "plugnull" or (f[0] == "plug" and len(f) == 2):
            if not g["null"]:
                self.fail("state", st, "an empty request gave a result")
            if opened:
                self.fail("state", st, "an empty request opened files")
            if f[0] == "plug":
                self.slots[int(f[1])] = None
        elif f[0] == "plug":
            want = [hist.unhex(t) for t in f[2:]]
            # an allocation that failed may cost the whole result (nothing stays open then) or the record it was for
            short = sum(e[0] == "allocfault" for e in st.ev)
            self.nomem += short
            if g["null"]:
                if not short:
                    self.fail("state", st, "no result although there was memory for it")
                if set(self.ld.open) != set(before):
                    self.fail("handles", st, "no result, but the open plugins changed from %s to %s" % (sorted(before), sorted(self.ld.open)))
                self.slots[int(f[1])] = None
                return True
            if g["num"] != len(want) or len(g["recs"]) != len(want):
                self.fail("state", st, "%d files requested, %s records" % (len(want), g["num"]))
                return False
            self.loads += 1
            used = []
            for i, fn in enumerate(want):
                rec, name = g["recs"][i], g["names"][i]
                lib = libs.get(fn.decode("utf-8", "surrogateescape")) if fn else None
                if not fn:
                    if rec[0] or any(rec[1:]) or name:
                        self.fail("state", st, "record %d of an empty name is not empty: %s %r" % (i, rec, name))
                    continue
                if name is None and short:
                    short -= 1
                elif name != fn:
                    self.fail("state", st, "record %d is for %r, requested was %r" % (i, name, fn))
                ok = lib is not None and lib.openable and (lib.now_ok or not self.b["flags"] & 2)
                if lib is not None and not lib.now_ok and self.b["flags"] & 2 and rec[0]:
                    ok = True                # still mapped: it is not bound again
                if not rec[0]:
                    if any(rec[1:]):
                        self.fail("state", st, "record %d has no handle, but symbols" % i)
                    if ok:
                        if not faulted.get(fn):
                            self.fail("state", st, "record %d (%r) was not loaded although it can be" % (i, fn))
                        else:
                            faulted[fn].pop()
                    continue
                h = self.ids.get(rec[0])
                if h is None or h in used or h not in opened.get(fn, []):
                    self.fail("state", st, "record %d (%r) carries handle %s, opened for it were %s" % (i, fn, h, opened.get(fn)))
                    continue
                used.append(h)
                for n, s in enumerate(syms):
                    a = self.ld.addr[h].get(n, 0) if s not in self.fsyms else 0
                    if rec[1 + n] != a:
                        self.fail("state", st, "record %d (%r): symbol %s is %#x, its address in this plugin is %#x" % (i, fn, s, rec[1 + n], a))
            lost = set(h for v in opened.values() for h in v) - set(used)
            if lost:
                self.fail("handles", st, "handles %s were opened but are in no record" % sorted(lost))
            if set(before) - set(self.ld.open):
                self.fail("state", st, "loading closed plugins that are in use")
            self.slots[int(f[1])] = (used, g["recs"], g["names"])
        elif f[0] == "show":
            s = self.slots.get(int(f[1]))
            if s and (g["recs"] != s[1] or g["names"] != s[2]):
                self.fail("state", st, "a result changed without being released")
        elif f[0] == "rel":
            s = self.slots.pop(int(f[1]), None)
            mine = s[0] if s else []
            closed = [int(e[1]) for e in st.ev if e[0] in ("close", "closefault")]
            if sorted(closed) != sorted(mine):
                self.fail("handles", st, "release closed %s, the result holds %s" % (sorted(closed), sorted(mine)))
        elif f[0] == "relnull":
            if st.ev:
                self.fail("state", st, "releasing nothing did something")
        return True


def check(c, want=("state", "handles", "crash"), sans=("plain", "asan"), nb=None):
    c.rule = "one case = one history of plugin loads and releases; records judged and loader events are counted; non-trivial: at least one plugin was opened"
    c.assumptions = ["symbols with non-null addresses", "memory: LeakSanitizer at process exit in the sanitizer builds", "the strings and the array passed in are destroyed after the call"]
    tool = Tool(c)
    r = c.rng
    jobs = []
    for n, san in enumerate(sans):
        cfgs = plugin_configs(nb or c.n(12, 24), san)
        builds = build_all(c, tool, r, cfgs, ks=[100 * n + k for k in range(len(cfgs))], driver="drv_plugin.c", builder=build)
        for b in builds:
            for i in range(c.n(40 if san == "plain" else 12, 300)):
                jobs.append((b, script(r, b["syms"], b["libs"], r.choice([2, 6, 20]))))

    def one(j):
        b, sc = j
        text = "\n".join(sc) + "\n"
        return b, sc, text, gen.run_script(b["exe"], b["w"], str(id(sc)), text, san=b["cfg"].san)

    recs = 0
    for b, sc, text, (res, log) in pmap(one, jobs):
        if res.timeout:
            c.inconcl("timeout")
            continue
        if res.rc in (90, 91, 92, 95, 96, 97):
            raise HarnessError("driver protocol error %s" % log[-300:])
        files = {"script.txt": text, "log.txt": log, "config.txt": repr(b["cfg"]) + "\n%s\n%s\n" % (b["syms"], {k: v.path[:200] for k, v in b["libs"].items()}) + res.text(3000)}

        def fail(aspect, st, msg, files=files):
            if aspect in want:
                c.violation("%s:%s:%s" % (aspect, st.cmd, re.sub(r"[0-9]+", "#", msg)[:60]), "op %d (%s): %s" % (st.n, st.cmd, msg), files)
        m = Model(b, fail)
        steps = parse(log)
        k = 0
        for l in sc:
            if l.startswith("fault"):
                p = l.split()
                if p[0] == "faultclear":
                    m.fsyms = set()
                elif p[1] == "sym":
                    m.fsyms.add(p[2])
                continue
            if k >= len(steps) or not m.step(steps[k], l):
                break
            recs += len(steps[k].paths["recs"])
            k += 1
            c.count("operations_judged")
        if res.rc != 0 and "crash" in want:
            c.violation("exit:%s" % res.rc, "the program ended with status %s\n%s" % (res.rc, res.text(1500)), files)
        c.count("loader_events", sum(len(s.ev) for s in steps))
        c.count("allocation_faults", m.nomem)
        c.case(sha(text + str(b["k"])), nontrivial=m.ld.opens > 0)
    c.extra["records_judged"] = recs
    c.sample({"script": jobs[0][1][:10], "config": repr(jobs[0][0]["cfg"])})
