"""Histories of calls of the generated interfaces: script generation, log parsing, and the
reference model that judges every step of an execution (see DESIGN.md, R01/R02/R06/R07/R08)."""
import os, re
from .gen import uphex

BUFLEN = 8 * 1024
RTLD_LAZY, RTLD_NOW, RTLD_GLOBAL, RTLD_DEEPBIND = 1, 2, 0x100, 8


class Step:
    """One executed operation."""
    __slots__ = ("n", "cmd", "args", "ev", "ret", "snap", "text", "path", "flags", "name", "paths", "outside")

    def __init__(self, n, cmd):
        self.n, self.cmd, self.ev, self.ret, self.snap = n, cmd, [], None, None
        self.text = self.path = self.flags = self.name = None
        self.outside = False
        self.args = ()


class Snap:
    __slots__ = ("loaded", "all", "no", "any", "ptrs", "disagree")

    def __init__(self, f):
        self.disagree = f[-1] == "disagree"
        if self.disagree:
            f = f[:-1]
        self.loaded, self.all, self.no, self.any = [x == "1" for x in f[:4]]
        self.ptrs = [0 if p == "(nil)" else int(p, 16) for p in f[4:]]

    def key(self):
        return (self.loaded, self.all, self.no, self.any, tuple(self.ptrs))


def unhex(tok):
    return None if tok == "~" else bytes.fromhex(tok[1:])


def parse(log):
    """log text -> list of Steps (the first is the start snapshot)"""
    steps, cur = [], None
    for l in log.splitlines():
        f = l.split(" ")
        k = f[0]
        if k == "O":
            cur = Step(int(f[1]), f[2])
            steps.append(cur)
        elif cur is None:
            continue
        elif k == "E":
            cur.ev.append(f[1:])
        elif k == "R":
            cur.ret = int(f[1])
        elif k == "S":
            cur.snap = Snap(f[1:])
        elif k == "T":
            cur.text = unhex(f[1])
        elif k == "T-outside":
            cur.outside = True
        elif k == "P":
            cur.path = unhex(f[1])
        elif k == "F":
            cur.flags = int(f[1])
        elif k == "N":
            cur.name = unhex(f[1])
        elif k == "X":
            cur.ev.append(["harness"] + f[1:])
    return steps


# ------------------------------------------------------------------ monitors over loader events
class Loader:
    """Online monitor of the loader calls (R02): what is open, who owns it."""

    def __init__(self, report):
        self.open, self.addr, self.path, self.file, self.report = {}, {}, {}, {}, report
        self.opens = self.closes = 0

    def feed(self, step):
        """-> list of (handle id, flags, ns, path) opened in this step"""
        got, last = [], None
        for e in step.ev:
            k = e[0]
            if k == "open":
                last = [int(e[1]), int(e[2][6:]), int(e[3][3:]), None]
                self.open[last[0]] = True
                self.addr[last[0]] = {}
                self.opens += 1
                got.append(last)
            elif k in ("openfail", "openfault"):
                last = None
            elif k == "path" and last is not None:
                last[3] = unhex(e[1])
                self.path[last[0]] = last[3]
            elif k == "file":
                self.file[int(e[1])] = unhex(e[2])
            elif k == "addr":
                self.addr[int(e[1])][int(e[2])] = 0 if e[3] == "(nil)" else int(e[3], 16)
            elif k == "close":
                self.open.pop(int(e[1]), None)
                self.closes += 1
            elif k == "fdleak":
                self.report("leak", step, "a file descriptor was %s and left so" % e[1])
            elif k == "bad":
                self.report("handles", step, "the loader was given a handle that is not open: %s" % " ".join(e[1:]))
        return got


def last_err(step, kinds):
    """loader error texts reported for the failing calls of the given kinds, in order"""
    res, armed = [], False
    for e in step.ev:
        if e[0] in kinds:
            armed = True
        elif e[0] == "err" and armed:
            res.append(unhex(e[1]))
            armed = False
        elif e[0] not in ("path", "err"):
            armed = False
    return res


class Common:
    """What the C and the C++ interface share."""

    def __init__(self, syms, libs, default, report, default_flags=RTLD_LAZY):
        self.syms = [s if isinstance(s, str) else s.name for s in syms]
        self.libs = libs                   # path text -> Lib
        self.default, self.default_flags = default, default_flags
        self.cur = None                    # handle id
        self.prev = None
        self.raw_report = report
        self.ld = Loader(report)
        self.faults = {}
        self.fsyms = set()
        self.orphans = set()               # forced free whose close failed
        self.bad = False
        self.gidx = None                   # numbers of the symbols in the loader's log
        self.coload = False                # other interfaces of the program may have it mapped
        self.states = set()

    def fail(self, aspect, step, msg):
        self.raw_report(aspect, step, msg)

    # faults as armed by the script
    def arm(self, line):
        f = line.split()
        if f[0] == "faultclear":
            self.faults, self.fsyms = {}, set()
        elif f[1] == "sym":
            self.fsyms.add(f[2])
        else:
            self.faults[f[1]] = int(f[2])

    @staticmethod
    def faulted(st, kind):
        return any(e[0] == kind for e in st.ev)

    def openable(self, fn, flags, got):
        l = self.libs.get(fn)
        if l is None:
            return False
        if not l.openable:
            return False
        if flags & RTLD_NOW and not l.now_ok and (self.orphans or self.coload):
            return bool(got)               # may still be mapped, then it is not bound again
        return not (flags & RTLD_NOW and not l.now_ok)

    def addr(self, i):
        return self.ld.addr.get(self.cur, {}).get(self.gidx[i] if self.gidx else i, 0)

    def resolvable(self, i):
        return self.addr(i) != 0 and self.syms[i] not in self.fsyms

    def check_snap(self, st):
        """invariants of every state; returns False when the state cannot be followed further"""
        s = st.snap
        if s is None:
            self.fail("crash", st, "the operation did not return")
            return False
        if not self.check_handles(st, s.loaded):
            return False
        if s.disagree:
            self.fail("state", st, "loader objects disagree about the shared state")
        nn = [p != 0 for p in s.ptrs]
        if len(nn) != len(self.syms):
            self.fail("state", st, "%d pointers" % len(nn))
            return False
        if s.all != all(nn) or s.no != (not any(nn)) or s.any != any(nn):
            self.fail("state", st, "all/no/any symbols loaded = %s/%s/%s with pointers %s" % (s.all, s.no, s.any, nn))
        if s.loaded != (self.cur is not None):
            self.fail("state", st, "library reported %s, but it is %s" % ("loaded" if s.loaded else "not loaded", "loaded" if self.cur is not None else "not loaded"))
            return False
        for i, p in enumerate(s.ptrs):
            if p == 0:
                continue
            if self.cur is None:
                self.fail("state", st, "symbol %s has an address although no library is loaded" % self.syms[i])
                return False
            if p != self.addr(i):
                self.fail("state", st, "symbol %s is %#x, its address in the loaded library is %#x" % (self.syms[i], p, self.addr(i)))
                return False
        self.states.add((s.loaded, tuple(nn)))
        return True

    def check_handles(self, st, loaded):
        """every open handle is the one in use (or was lost by a forced free whose close failed)"""
        extra = set(self.ld.open) - ({self.cur} if self.cur is not None and loaded else set()) - self.orphans
        if loaded and self.cur is None and len(extra) == 1:
            extra = set()                  # not the state the model expects, but reachable
        if extra:
            self.fail("handles", st, "open handles %s are no longer reachable" % sorted(extra))
            self.orphans |= extra
        if self.cur is not None and loaded and self.cur not in self.ld.open:
            self.fail("handles", st, "the library in use was closed")
            return False
        return True

    def same(self, st, what):
        if st.snap and self.prev and st.snap.key() != self.prev.key():
            self.fail("state", st, "%s changed the state" % what)

    def judge_all(self, st, ret):
        """loading all symbols, as a relation (prev snapshot -> new)"""
        pn = [p != 0 for p in self.prev.ptrs]
        s = st.snap
        if s is None:
            return
        if self.cur is None:
            if ret and not all(pn):
                self.fail("state", st, "loading all symbols succeeded without a library")
            return
        if ret and not all(s.ptrs):
            self.fail("state", st, "loading all symbols succeeded, but not all are loaded")
        need = [i for i, ok in enumerate(pn) if not ok]
        if ret and any(not self.resolvable(i) for i in need):
            self.fail("state", st, "loading all symbols succeeded although one cannot be found")
        if not ret and all(self.resolvable(i) for i in range(len(pn))):
            self.fail("state", st, "loading all symbols failed although all can be found")
        for i, ok in enumerate(pn):
            if ok and not s.ptrs[i] and self.resolvable(i):
                self.fail("state", st, "loading all symbols lost %s" % self.syms[i])
        if not need and not ret:
            self.fail("state", st, "all symbols were loaded, yet loading them failed")

    def judge_one(self, st, ret, i):
        """loading symbol number i (None: unknown)"""
        s = st.snap
        if s is None:
            return
        if self.cur is None or i is None:
            if ret:
                self.fail("state", st, "loading a symbol succeeded %s" % ("without a library" if self.cur is None else "although it is not one of the library's declared symbols"))
            self.same(st, "a failed symbol load")
            return
        want = self.prev.ptrs[i] != 0 or self.resolvable(i)
        if bool(ret) != want:
            self.fail("state", st, "loading symbol %s returned %s" % (self.syms[i], ret))
        for j in range(len(self.syms)):
            exp = self.addr(i) if (j == i and want) else self.prev.ptrs[j]
            if s.ptrs[j] != exp:
                self.fail("state", st, "loading symbol %s: symbol %s is %#x, expected %#x" % (self.syms[i], self.syms[j], s.ptrs[j], exp))

    def sym_of(self, tok):
        """argument of `sym' -> (number, index or None)"""
        n = int(tok[1:])
        if tok[0] == "#":
            return n, n if n < len(self.syms) else None
        return n, n if 0 <= n < len(self.syms) else None

    def opened(self, st, got, fn, flags, ns, want):
        """after a load of fn: exactly the requested open, if it can work"""
        if want:
            if not st.ret:
                self.fail("state", st, "loading %r failed although it can be loaded" % fn[:200])
            if len(got) != 1:
                self.fail("handles", st, "%d opens for one load" % len(got))
            if got:
                g = got[-1]
                self.cur = g[0]
                if g[3] != fn.encode("utf-8", "surrogateescape"):
                    self.fail("state", st, "asked for %r, loaded %r" % (fn, g[3]))
                if g[1] != flags:
                    self.fail("state", st, "asked for flags %#x, used %#x" % (flags, g[1]))
                if bool(g[2]) != bool(ns):
                    self.fail("state", st, "new namespace requested: %s, used: %s" % (bool(ns), bool(g[2])))
        else:
            if st.ret:
                self.fail("state", st, "loading %r succeeded although it cannot be loaded" % fn[:200])
            if got:
                self.fail("state", st, "a file was opened: %s" % got)
                self.cur = got[-1][0]


class CModel(Common):
    """The documented state machine of the C interface."""

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.autorel = False
        self.err = {b"no error"}           # acceptable texts
        self.err_why = "start"

    def expect(self, texts, why):
        self.err = {t[:BUFLEN - 1] for t in texts}
        self.err_why = why

    def step(self, st, line):
        """judge one step; line is the script line that caused it"""
        f = line.split()
        cmd = f[0]
        a = f[1:] if len(f) > 1 else []
        got = self.ld.feed(st)
        prev_cur = self.cur
        OKT = [b"no error"]
        if cmd in ("load", "loadsym", "name", "namesym", "args"):
            ns = 0
            flags = self.default_flags
            if cmd in ("load", "loadsym"):
                fn = self.default
            else:
                fn = unhex(a[0])
                fn = fn.decode("utf-8", "surrogateescape") if fn is not None else None
            if cmd == "args":
                flags, ns = int(a[1]), int(a[2])
            if self.cur is not None:
                if st.ret:
                    self.fail("state", st, "a load succeeded while a library was loaded")
                self.same(st, "a load while a library was loaded")
                if got:
                    self.fail("handles", st, "a library was opened while one is loaded")
                    self.orphans |= set(g[0] for g in got)
                self.expect([b"library already loaded"], "library already loaded")
            elif not fn:
                if st.ret:
                    self.fail("state", st, "a load without a file name succeeded")
                self.expect([b"empty filename"], "no file name")
            else:
                want = self.openable(fn, flags, got) and not self.faulted(st, "openfault")
                if cmd.endswith("sym"):
                    self._loadsym(st, got, fn, flags, want)
                else:
                    self.opened(st, got, fn, flags, ns, want)
                if self.cur is None:
                    self.expect(last_err(st, ("openfail", "openfault")), "the loader's message")
                elif st.ret:
                    self.expect(OKT, "success")
                else:
                    self.expect(last_err(st, ("symfail", "symfault")), "the loader's message for the symbol")
        elif cmd == "free":
            if self.cur is None:
                if not st.ret:
                    self.fail("state", st, "free without a library failed")
                self.expect(OKT, "free")
            elif self.faulted(st, "closefault"):
                if st.ret:
                    self.fail("state", st, "a failed free reported success")
                self.same(st, "a failed free")
                self.expect(last_err(st, ("closefault",)), "the loader's message")
            else:
                self.cur = None
                if not st.ret:
                    self.fail("state", st, "free failed")
                self.expect(OKT, "free")
        elif cmd == "force":
            if self.cur is not None and self.faulted(st, "closefault"):
                self.orphans.add(self.cur)
            self.cur = None
            self.expect(OKT, "forced free")
        elif cmd == "loaded":
            if bool(st.ret) != (self.cur is not None):
                self.fail("state", st, "library reported as %s" % st.ret)
            self.same(st, "a query")
        elif cmd == "autorel":
            if self.autorel:
                if not st.ret:
                    self.fail("state", st, "automatic release was registered, yet it is reported as failed")
                self.expect(OKT, "registered")
            elif any(e[0] == "atexitfault" for e in st.ev):
                if st.ret:
                    self.fail("state", st, "automatic release was reported as registered, but was not")
                self.err, self.err_why = None, "atexit"
            else:
                if not st.ret:
                    self.fail("state", st, "automatic release failed")
                self.autorel = True
                self.expect(OKT, "registered")
            self.same(st, "enabling automatic release")
        elif cmd == "all":
            if self.prev and self.cur is not None and all(self.prev.ptrs):
                self.expect(OKT, "all loaded")
            elif self.cur is None:
                self.expect([b"no library was loaded"], "no library")
            elif st.ret:
                self.expect(OKT, "success")
            else:
                self.expect(last_err(st, ("symfail", "symfault")), "the loader's message for the symbol")
            self.judge_all(st, st.ret)
        elif cmd == "sym":
            n, i = self.sym_of(a[0])
            self.judge_one(st, st.ret, i)
            if self.cur is None:
                self.expect([b"no library was loaded"], "no library")
            elif i is None:
                self.expect([b"unknown symbol number: %d" % n], "unknown number")
            elif st.ret:
                self.expect(OKT, "success")
            else:
                self.expect(last_err(st, ("symfail", "symfault")), "the loader's message for the symbol")
        elif cmd == "symname":
            name = unhex(a[0])
            txt = name.decode("utf-8", "surrogateescape") if name is not None else None
            i = self.syms.index(txt) if txt in self.syms else None
            self.judge_one(st, st.ret, i)
            if self.cur is None:
                self.expect([b"no library was loaded"], "no library")
            elif not name:
                self.expect([b"empty symbol name"], "no name")
            elif i is None:
                self.expect([b"unknown symbol: " + name], "unknown name")
            elif st.ret:
                self.expect(OKT, "success")
            else:
                self.expect(last_err(st, ("symfail", "symfault")), "the loader's message for the symbol")
        elif cmd == "err":
            self.judge_err(st)
            self.same(st, "reading the error text")
        elif cmd == "path":
            judge_path(self, st)
            self.same(st, "a path query")
            if st.path is not None and self.cur is not None:
                self.expect(OKT, "path found")
            elif self.cur is None:
                self.expect([b"no library was loaded"], "no library")
            else:
                self.err, self.err_why = "path", "path not found"
        elif cmd == "chdir":
            pass
        if not self.check_snap(st):
            return False
        # loads alone do not touch symbols
        if cmd in ("load", "name", "args") and any(st.snap.ptrs) and prev_cur is None:
            self.fail("state", st, "loading the library alone loaded symbols")
        self.prev = st.snap
        return True

    def _loadsym(self, st, got, fn, flags, want):
        ret, st.ret = st.ret, (1 if got else 0)
        self.opened(st, got, fn, flags, 0, want)
        st.ret = ret
        if self.cur is None:
            if ret:
                self.fail("state", st, "loading library and symbols succeeded without a library")
            return
        self.judge_all(st, ret)

    def judge_err(self, st):
        t = st.text
        if t is None:
            self.fail("error", st, "the error text is a null pointer")
            return
        if st.outside or len(t) >= BUFLEN:
            self.fail("memory", st, "the error text runs over its buffer (%d bytes)" % len(t))
        if st.outside:
            self.fail("error", st, "the error text is not terminated within its buffer")
        if len(t) >= BUFLEN:
            self.fail("error", st, "error text of %d bytes does not fit the buffer" % len(t))
        if not t:
            self.fail("error", st, "the error text is empty")
        if self.err is None:
            if b"atexit" not in t:
                self.fail("error", st, "error text %r after a failed atexit()" % t[:200])
        elif self.err == "path":
            if t == b"no error":
                self.fail("error", st, "`no error' after a failed path query")
        elif t not in self.err:
            self.fail("error", st, "error text is %r (%d bytes), expected %r [%s]" % (t[:300], len(t), [e[:300] for e in self.err], self.err_why))


def judge_path(m, st):
    """R07, and what it says about state"""
    if isinstance(m, CModel):
        if st.path == b"":
            m.fail("path", st, "the reported path is an empty string")
        elif st.path is not None and len(st.path) >= BUFLEN:
            m.fail("path", st, "the reported path (%d bytes) does not fit its buffer" % len(st.path))
    if getattr(m, "plat", None):
        return m.plat_path(st)
    if m.cur is None:
        if st.path not in (None, b""):
            m.fail("path", st, "a library path (%r) is reported although no library is loaded" % st.path[:200])
        return
    f = m.faults
    fn = m.ld.path[m.cur]
    lib = m.libs.get(fn.decode("utf-8", "surrogateescape"))
    file = m.ld.file.get(m.cur)
    if file is None or not os.path.exists(file):
        file = lib.path if lib is not None and lib.openable else None
    if not hasattr(m, "weak"):
        m.weak = set()
    if st.path in (None, b""):
        if not (f.get("dlinfo") or f.get("lname")):
            m.fail("path", st, "no path is reported for the loaded library %r" % fn)
        elif not (f.get("dladdr") or f.get("fname")) and any(st.snap.ptrs if st.snap else ()):
            m.fail("path", st, "no path is reported although a symbol of the library is loaded")
        return
    if f.get("dlinfo") or f.get("lname") or f.get("maps"):
        m.weak.add(m.cur)                  # what dladdr() knows (and may be remembered)
    p = st.path
    if set(p[1:]) == {ord("p")} and p[:1] == b"/" and 3 in (f.get("lname"), f.get("fname")):
        return                             # the injected long name
    if file is None:
        return
    if not p.startswith(b"/"):
        if m.cur in m.weak and (m.orphans or not fn.startswith(b"/")):
            return                         # dladdr() alone knows no more
        m.fail("path", st, "the reported path is not absolute: %r" % p[:300])
    elif not os.path.exists(p) or not os.path.samefile(p, file):
        m.fail("path", st, "the reported path is %r, the loaded file is %r (requested: %r)" % (p[:300], file[:300], fn[:300]))
    else:
        m.paths_ok = getattr(m, "paths_ok", 0) + 1
    if lib is not None and not getattr(m, "cwds", None) and os.path.exists(p) and not os.path.samefile(p, lib.path):
        m.fail("path", st, "the reported path is %r, the file requested is %r" % (p[:300], lib.path))


# ------------------------------------------------------------------ scripts
def near_names(r, names):
    """strings that are almost a symbol name"""
    n = r.choice(names)
    common = os.path.commonprefix(list(names))
    k = r.randrange(14)
    if k == 0:
        return n[:-1]
    if k == 1:
        return n + r.choice("_1xX")
    if k == 2:
        return n.swapcase()
    if k == 3:
        i = r.randrange(len(n))
        return n[:i] + r.choice("_aZ9") + n[i + 1:]
    if k == 4:
        return common
    if k == 5:
        return common + "x"
    if k == 6:
        return " " + n
    if k == 7:
        return n + "%s%n"
    if k == 8:
        return n[len(common):] or "y"
    if k == 9:
        return n[1:] or "z"
    if k == 10:
        return n + "x" * r.choice([100, 8000, 8173, 8174, 8175, 8176, 9000, 20000])
    if k == 11:
        return r.choice(["malloc", "main", "printf", "gdo_hndl", "x" * 8192, "é", "%d", "\n"])
    if k == 12:
        i, j = r.randrange(len(n)), r.randrange(len(n))
        l = list(n)
        l[i], l[j] = l[j], l[i]
        return "".join(l)
    return n + "\n"


def gen_c(r, names, libs, n, default=True, faults=True, errs=0.5, paths=0.1, ns=0.05, longerr=True, force=1, autorel=0.4, pathfaults=False):
    """A random script for the C driver."""
    out = []
    keys = sorted(libs)
    good = [k for k in keys if libs[k].openable]
    used_ns = 0
    for _ in range(n):
        if faults and r.random() < 0.15:
            k = r.randrange(8)
            if k < 3:
                out.append("fault sym " + r.choice(names))
            elif k == 3:
                out.append("fault open 1")
            elif k == 4:
                out.append("fault close 1")
            elif k == 5:
                out.append("faultclear")
            elif k == 6 and longerr:
                out.append("fault errlen %d" % r.choice([0, 50, 8190, 8191, 8192, 8193, 20000, 60000]))
            elif pathfaults:
                out.extend(r.choice(["fault dlinfo 1", "fault dladdr 1", "fault lname 1", "fault lname 2", "fault lname 3", "fault fname 1", "fault fname 2", "fault fname 3", "fault dlinfo 1\nfault fname 3", "fault lname 1\nfault fname 3", "fault atexit 1", "fault dlinfo 0", "fault lname 0", "fault fname 0", "fault atexit 0"]).split("\n"))
            else:
                out.append("fault %s %d" % (r.choice(["dlinfo", "dladdr"]), r.choice([0, 1])))
        w = [("name", 3), ("namesym", 3), ("args", 2), ("free", 4), ("force", force), ("all", 4), ("sym", 4), ("symname", 4), ("loaded", 0.5), ("path", 10 * paths), ("autorel", autorel)]
        if default:
            w += [("load", 1.5), ("loadsym", 1.5)]
        cmd = r.choices([x for x, _ in w], [y for _, y in w])[0]
        if cmd in ("name", "namesym", "args"):
            k = r.random()
            fn = None if k < 0.04 else "" if k < 0.08 else libs[r.choice(good if r.random() < 0.75 else keys)].path
            s = cmd + " " + uphex(fn)
            if cmd == "args":
                fl = r.choice([RTLD_LAZY, RTLD_NOW, RTLD_LAZY | RTLD_GLOBAL, RTLD_NOW | RTLD_GLOBAL, RTLD_LAZY | RTLD_DEEPBIND])
                n1 = int(r.random() < ns / 0.1 * 0.5 and used_ns < 6)
                if n1:
                    used_ns += 1
                    fl &= ~RTLD_GLOBAL
                s += " %d %d" % (fl, n1)
            out.append(s)
        elif cmd == "sym":
            k = r.random()
            if k < 0.8:
                out.append("sym #%d" % r.randrange(len(names)))
            else:
                out.append("sym =%d" % r.choice([len(names), len(names) + 1, -1, 2147483647, -2147483648, 1000, 0, len(names) - 1]))
        elif cmd == "symname":
            k = r.random()
            s = r.choice(names) if k < 0.6 else None if k < 0.63 else "" if k < 0.66 else near_names(r, names)
            out.append("symname " + uphex(s))
        else:
            out.append(cmd)
        if r.random() < errs:
            out.append("err")
            if r.random() < 0.1:
                out.append("err")
    return out


def run_model(model, script, steps):
    """Feed an execution to a model. Returns the number of judged operations."""
    lines = [l for l in script if l.strip()]
    if not steps:
        return 0
    model.ld.feed(steps[0])
    if not model.check_snap(steps[0]):
        return 0
    model.prev = steps[0].snap
    k, judged = 1, 0
    for l in lines:
        if l.startswith("fault"):
            model.arm(l)
            continue
        if l.startswith("exit"):
            break
        if k >= len(steps):
            model.fail("crash", steps[-1], "the program ended before operation %d (%s)" % (k - 1, l[:100]))
            return judged
        st = steps[k]
        k += 1
        judged += 1
        if not model.step(st, l):
            return judged
    rest = steps[k:]
    if isinstance(model, CxxModel):
        model.finish_objects([s for s in rest if s.cmd == "delend"])
        rest = [s for s in rest if s.cmd != "delend"]
    for st in rest:
        model.ld.feed(st)
        if st is rest[-1] and getattr(model, "autorel", False):
            left = set(model.ld.open) - model.orphans
            if model.cur in left and model.faulted(st, "closefault"):
                left.discard(model.cur)
            if left:
                model.fail("handles", st, "handles %s are still open after automatic release" % sorted(left))
    model.ended = True
    return judged


# ------------------------------------------------------------------ C++ class
class Obj:
    def __init__(self, fn, flags, ns):
        self.fn, self.flags, self.ns, self.dtor, self.tried = fn, flags, ns, True, False
        self.err, self.why = {b"no error"}, "new object"


class CxxModel(Common):
    """The documented model of the loader class."""

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.o = {}

    def expect(self, o, texts, why):
        o.err, o.why = set(texts), why

    def step(self, st, line):
        f = line.split()
        cmd, k, a = f[0], int(f[1]) if len(f) > 1 else 0, f[2:]
        got = self.ld.feed(st)
        prev_cur = self.cur
        OKT = [b"no error"]
        o = self.o.get(k)

        def text(tok):
            return (unhex(tok) or b"").decode("utf-8", "surrogateescape")
        if cmd == "new0":
            self.o[k] = Obj("", self.default_flags, 0)
            self.same(st, "construction")
        elif cmd == "new1":
            self.o[k] = Obj(text(a[0]), self.default_flags, 0)
            self.same(st, "construction")
        elif cmd == "new3":
            self.o[k] = Obj(text(a[0]), int(a[1]), int(a[2]))
            self.same(st, "construction")
        elif cmd in ("del", "delend"):
            if o.dtor:
                self.force(st)
            else:
                self.same(st, "destruction without release")
            del self.o[k]
        elif cmd == "dtor":
            o.dtor = a[0] == "1"
            if bool(st.ret) != o.dtor:
                self.fail("state", st, "free_lib_in_dtor() returned %s" % st.ret)
            self.same(st, "free_lib_in_dtor()")
        elif cmd in ("load", "loadsym", "name", "args"):
            if cmd == "name":
                o.fn, o.flags, o.ns = text(a[0]), self.default_flags, 0
            elif cmd == "args":
                o.fn, o.flags, o.ns = text(a[0]), int(a[1]), int(a[2])
            o.tried = True
            if self.cur is not None:
                if st.ret:
                    self.fail("state", st, "a load succeeded while a library was loaded")
                self.same(st, "a load while a library was loaded")
                if got:
                    self.fail("handles", st, "a library was opened while one is loaded")
                    self.orphans |= set(g[0] for g in got)
                self.expect(o, [b"library already loaded"], "library already loaded")
            elif not o.fn:
                if st.ret:
                    self.fail("state", st, "a load without a file name succeeded")
                self.expect(o, [b"empty filename"], "no file name")
            else:
                want = self.openable(o.fn, o.flags, got) and not self.faulted(st, "openfault")
                ret = st.ret
                if cmd == "loadsym":
                    st.ret = 1 if got else 0
                self.opened(st, got, o.fn, o.flags, o.ns, want)
                st.ret = ret
                if cmd == "loadsym":
                    if self.cur is not None:
                        self.judge_all(st, ret)
                    elif ret:
                        self.fail("state", st, "loading library and symbols succeeded without a library")
                if self.cur is None:
                    self.expect(o, last_err(st, ("openfail", "openfault")), "the loader's message")
                elif ret:
                    self.expect(o, OKT, "success")
                else:
                    self.expect(o, last_err(st, ("symfail", "symfault")), "the loader's message for the symbol")
        elif cmd == "loaded":
            if bool(st.ret) != (self.cur is not None):
                self.fail("state", st, "library reported as %s" % st.ret)
            self.same(st, "a query")
        elif cmd == "flags":
            if st.flags != o.flags and not (st.flags == 0 and not o.tried):
                self.fail("state", st, "flags() is %s, not %s" % (st.flags, o.flags))
            self.same(st, "a query")
        elif cmd == "filename":
            if st.name != o.fn.encode("utf-8", "surrogateescape"):
                self.fail("state", st, "filename() is %r, not %r" % (st.name[:200], o.fn[:200]))
            self.same(st, "a query")
        elif cmd == "free":
            if a and a[0] == "1":
                if not st.ret:
                    self.fail("state", st, "a forced free failed")
                self.force(st)
                self.expect(o, OKT, "forced free")
            elif self.cur is None:
                if not st.ret:
                    self.fail("state", st, "free without a library failed")
                self.expect(o, OKT, "free")
            elif self.faulted(st, "closefault"):
                if st.ret:
                    self.fail("state", st, "a failed free reported success")
                self.same(st, "a failed free")
                self.expect(o, last_err(st, ("closefault",)), "the loader's message")
            else:
                self.cur = None
                if not st.ret:
                    self.fail("state", st, "free failed")
                self.expect(o, OKT, "free")
        elif cmd == "all":
            if self.prev and self.cur is not None and all(self.prev.ptrs):
                self.expect(o, OKT, "all loaded")
            elif self.cur is None:
                self.expect(o, [b"no library was loaded"], "no library")
            elif st.ret:
                self.expect(o, OKT, "success")
            else:
                self.expect(o, last_err(st, ("symfail", "symfault")), "the loader's message for the symbol")
            self.judge_all(st, st.ret)
        elif cmd in ("sym", "symname"):
            if cmd == "sym":
                n, i = self.sym_of(a[0])
                unknown = b"unknown symbol number: %d" % n
            else:
                name = unhex(a[0])
                txt = name.decode("utf-8", "surrogateescape") if name is not None else None
                i = self.syms.index(txt) if txt in self.syms else None
                unknown = b"unknown symbol: " + name if name else b"empty symbol name"
            self.judge_one(st, st.ret, i)
            if self.cur is None:
                self.expect(o, [b"no library was loaded"], "no library")
            elif i is None:
                self.expect(o, [unknown], "unknown symbol")
            elif st.ret:
                self.expect(o, OKT, "success")
            else:
                self.expect(o, last_err(st, ("symfail", "symfault")), "the loader's message for the symbol")
        elif cmd == "err":
            t = st.text
            if not t:
                self.fail("error", st, "the error text is empty")
            elif o.err == "path":
                if t == b"no error":
                    self.fail("error", st, "`no error' after a failed path query")
            elif t not in o.err:
                self.fail("error", st, "error text is %r (%d bytes), expected %r [%s]" % (t[:300], len(t), [e[:300] for e in o.err], o.why))
            self.same(st, "reading the error text")
        elif cmd == "path":
            judge_path(self, st)
            self.same(st, "a path query")
            if st.path and self.cur is not None:
                self.expect(o, OKT, "path found")
            elif self.cur is None:
                self.expect(o, [b"no library was loaded"], "no library")
            else:
                o.err, o.why = "path", "path not found"
        if not self.check_snap(st):
            return False
        if cmd in ("load", "name", "args") and any(st.snap.ptrs) and prev_cur is None:
            self.fail("state", st, "loading the library alone loaded symbols")
        self.prev = st.snap
        return True

    def force(self, st):
        if self.cur is not None and self.faulted(st, "closefault"):
            self.orphans.add(self.cur)
        self.cur = None

    def finish_objects(self, steps):
        """the objects destroyed at the end of main()"""
        order = sorted(self.o)
        for st, k in zip(steps, order):
            self.ld.feed(st)
            if self.o[k].dtor:
                self.force(st)
            left = set(self.ld.open) - self.orphans - ({self.cur} if self.cur is not None else set())
            if left:
                self.fail("handles", st, "handles %s are still open after destruction with release" % sorted(left))
                self.orphans |= left
            if self.cur is not None and self.cur not in self.ld.open:
                self.fail("state", st, "destruction released the library although release is disabled")
                self.cur = None


def gen_cxx(r, names, libs, n, faults=True, errs=0.4, paths=0.1, ns=0.05, longerr=True, nobj=5, pathfaults=False):
    """A random script for the C++ driver."""
    out, alive = [], {}
    keys = sorted(libs)
    good = [k for k in keys if libs[k].openable]
    used_ns = 0
    nxt = 0

    def fname():
        k = r.random()
        return "" if k < 0.08 else libs[r.choice(good if r.random() < 0.8 else keys)].path

    def flags():
        nonlocal used_ns
        fl = r.choice([RTLD_LAZY, RTLD_NOW, RTLD_LAZY | RTLD_GLOBAL, RTLD_NOW | RTLD_GLOBAL])
        n1 = int(r.random() < ns / 0.1 * 0.5 and used_ns < 6)
        if n1:
            used_ns += 1
            fl &= ~RTLD_GLOBAL
        return "%d %d" % (fl, n1)
    for _ in range(n):
        if faults and r.random() < 0.15:
            k = r.randrange(8)
            if k < 3:
                out.append("fault sym " + r.choice(names))
            elif k == 3:
                out.append("fault open 1")
            elif k == 4:
                out.append("fault close 1")
            elif k == 5:
                out.append("faultclear")
            elif k == 6 and longerr:
                out.append("fault errlen %d" % r.choice([0, 50, 8191, 8192, 20000, 60000]))
            elif pathfaults:
                out.extend(r.choice(["fault dlinfo 1", "fault dladdr 1", "fault lname 1", "fault lname 2", "fault lname 3", "fault fname 1", "fault fname 2", "fault fname 3", "fault dlinfo 1\nfault fname 3", "fault lname 1\nfault fname 3", "fault atexit 1", "fault dlinfo 0", "fault lname 0", "fault fname 0", "fault atexit 0"]).split("\n"))
            else:
                out.append("fault %s %d" % (r.choice(["dlinfo", "dladdr"]), r.choice([0, 1])))
        if not alive or (len(alive) < nobj and r.random() < 0.12):
            k = nxt % 60
            while k in alive:
                k = (k + 1) % 60
            nxt = k + 1
            c = r.choice(["new0", "new1", "new1", "new3"])
            out.append("%s %d" % (c, k) + ("" if c == "new0" else " " + uphex(fname()) + (" " + flags() if c == "new3" else "")))
            alive[k] = True
            if r.random() < 0.4:
                out.append("dtor %d 0" % k)
            continue
        k = r.choice(sorted(alive))
        cmd = r.choices(["del", "dtor", "load", "loadsym", "name", "args", "loaded", "flags", "filename", "free", "all", "sym", "symname", "path"],
                        [0.6, 0.5, 3, 3, 2, 2, 0.4, 0.8, 0.8, 4, 4, 3, 4, 10 * paths])[0]
        if cmd == "del":
            del alive[k]
            out.append("del %d" % k)
        elif cmd == "dtor":
            out.append("dtor %d %d" % (k, r.randint(0, 1)))
        elif cmd == "name":
            out.append("name %d %s" % (k, uphex(fname())))
        elif cmd == "args":
            out.append("args %d %s %s" % (k, uphex(fname()), flags()))
        elif cmd == "free":
            out.append("free %d%s" % (k, r.choice([" 0", " 0", "", "", " 1"])))
        elif cmd == "sym":
            out.append("sym %d " % k + ("#%d" % r.randrange(len(names)) if r.random() < 0.8 else "=%d" % r.choice([len(names), len(names) + 1, -1, 2147483647, -2147483648, 1000, 0])))
        elif cmd == "symname":
            q = r.random()
            s = r.choice(names) if q < 0.6 else None if q < 0.63 else "" if q < 0.66 else near_names(r, names)
            out.append("symname %d %s" % (k, uphex(s)))
        else:
            out.append("%s %d" % (cmd, k))
        if r.random() < errs and alive:
            out.append("err %d" % (k if k in alive and r.random() < 0.8 else r.choice(sorted(alive))))
    return out


# ------------------------------------------------------------------ minimal formats
class MinModel(Common):
    """All or nothing."""
    cxx = False
    minflags = RTLD_LAZY

    def check_snap(self, st):
        s = st.snap
        if s is None:
            self.fail("crash", st, "the operation did not return")
            return False
        if not self.check_handles(st, s.loaded):
            return False
        if s.loaded != (self.cur is not None):
            self.fail("state", st, "library handle %s, but the library is %s" % ("set" if s.loaded else "null", "loaded" if self.cur is not None else "not loaded"))
            return False
        for i, p in enumerate(s.ptrs):
            want = self.addr(i) if self.cur is not None else 0
            if p != want:
                self.fail("state", st, "symbol %s is %#x, expected %#x" % (self.syms[i], p, want))
                return False
        self.states.add((s.loaded, tuple(p != 0 for p in s.ptrs)))
        return True

    def closes(self, st):
        for e in st.ev:
            if e[0] == "closefault":
                self.orphans.add(int(e[1]))

    def step(self, st, line):
        f = line.split()
        got = self.ld.feed(st)
        self.closes(st)
        self.cur = None
        if f[0] == "load":
            fn = unhex(f[1])
            txt = fn.decode("utf-8", "surrogateescape") if fn is not None else None
            t = st.text
            if not fn:
                ok, lib_err = False, True
            else:
                want = self.openable(txt, self.minflags, got) and not self.faulted(st, "openfault")
                ret, st.ret = st.ret, bool(got)
                self.opened(st, got, txt, self.minflags, 0, want)
                st.ret = ret
                lib_err = not want
                missing = [s for i, s in enumerate(self.syms) if self.cur is not None and not self.resolvable(i)]
                ok = want and not missing
                if not ok:
                    self.cur = None
            if bool(st.ret == 1) != ok:
                self.fail("state", st, "load returned %s (%r), expected %s" % (st.ret, t, "success" if ok else "failure"))
                if st.ret == 1 and got:
                    self.cur = got[-1][0]
            elif not ok:
                if st.ret not in (0,) or not t:
                    self.fail("state", st, "failed load without the documented explanation: %s %r" % (st.ret, t))
                elif self.cxx:
                    exp = [b"L:<NULL>"] if fn is None else [b"L:<EMPTY>"] if fn == b"" else [b"L:" + fn] if lib_err else [b"S:" + s.encode() for s in missing]
                    if t not in exp:
                        self.fail("state", st, "exception %r, expected one of %r" % (t[:200], [e[:200] for e in exp]))
                elif not lib_err:
                    words = re.findall(rb"\w+", t)
                    if not any(s.encode() in words for s in missing):
                        self.fail("state", st, "message %r does not name a missing symbol (%s)" % (t, missing))
            elif t is not None:
                self.fail("state", st, "successful load with a message %r" % t)
        if not self.check_snap(st):
            return False
        self.prev = st.snap
        return True


class MinCxxModel(MinModel):
    cxx = True


def gen_min(r, names, libs, n, faults=True):
    out = []
    keys = sorted(libs)
    good = [k for k in keys if libs[k].openable]
    for _ in range(n):
        if faults and r.random() < 0.3:
            k = r.randrange(8)
            out.append("fault sym " + r.choice(names + [names[0], names[-1]]) if k < 3 else "fault open 1" if k == 3 else "fault close 1" if k == 4 else "faultclear")
        k = r.random()
        if k < 0.3:
            out.append("free")
        else:
            q = r.random()
            fn = None if q < 0.05 else "" if q < 0.1 else libs[r.choice(good if r.random() < 0.75 else keys)].path
            out.append("load " + uphex(fn))
    return out
