"""T11: a custom prefix renames the whole generated interface and isolates it."""
import os, random, re
from vk import decl, gen, hist, multi, opts, rbuild
from vk.core import HarnessError, pmap, run, sha
from vk.gen import Config
from vk.tool import Tool

TECHNIQUE = "runtime monitoring: outputs with a prefix compared with the renamed default output and searched for leftovers (text, macros seen by the preprocessor, linker symbols); programs with two or three generated interfaces, each judged by its own reference model with the loader handles attributed to their owner"
LEVEL_NOTE = "exploration: random prefixes, declarations, options and formats; random interleaved and fault-injected histories over 2-3 interfaces of all formats in one program"

FMTS = ["c", "c++", "minimal", "minimal-c++", "plugin"]
CXX = ("c++", "minimal-c++")
PREFIXES = ["abc", "My_Lib", "X", "zz9", "Foo_", "_p", "a_b_c", "ABC_1", "gdox", "gdo_", "x_gdo", "GDOX", "gd", "do", "o", "g", "_gdo", "define", "dl", "load", "hndl", "int2", "A" * 60, "gdo2", "Gdo_gdo", "t", "handle", "wrap", "lib", "LIB_EXT", "enum_",
            "gdogdo", "ggdo", "unsigned_", "_", "__p", "n_0_0", "std_", "E9", "GDo"]
# what the C library may lack gets its usual name
OTHER = re.compile(r"(RTLD_\w+|DL_LAZY|LM_ID_\w+|DL\w+_PROTOTYPE|NULL|_GNU_SOURCE|_T|_countof)$")


def lo(p):
    return gen.rename("gdo", p)


def check(c):
    c.rule = ("(a) random declarations (also with names of the default interface) x options x format x prefix: output equal to the renamed default output, no default-prefix token, "
              "macros and linker symbols carry the prefix; (b) one case = one history over several interfaces in one program; operations and cross-interface state comparisons are counted; "
              "non-trivial: libraries of at least two interfaces were opened")
    c.assumptions = ["prefixes of one program differ by more than letter case", "a prefix is an identifier", "loader macros that the platform lacks (RTLD_...) keep their usual names"]
    tool = Tool(c)
    texts(c, tool)
    objects(c, tool)
    programs(c, tool)


def names_back(text):
    return re.sub("qzy", "gdo", re.sub("QZY", "GDO", text))


def rand_prefix(r):
    if r.random() < 0.7:
        return r.choice(PREFIXES)
    p = "".join(r.choice("abgdoxGDOX_19") for _ in range(r.randint(1, 12)))
    return "p" + p if p[0].isdigit() else p


def texts(c, tool):
    r = c.rng
    root = c.mkdir("text")
    jobs = []
    for i in range(c.n(110, 1500)):
        spec = decl.Spec(named=True, nsyms=(1, 8))
        syms = decl.gen_decls(r, spec)
        text = decl.plain_text(syms)
        if r.random() < 0.5:
            # declared names that look like those of the default interface
            pool = ["qzy_load_lib", "qzy_hndl", "qzy_free_lib", "QZY_LOAD_a", "qzy", "QZY_x", "_qzy_y", "qzy_handle_t", "x_qzy_y", "qzyz", "QZY_PTR_a", "_QZY_q"]
            r.shuffle(pool)
            for s in syms[:r.randint(1, len(syms))]:
                n = pool.pop()
                text = re.sub(r"\b%s\b" % re.escape(s.name), n, text)
                s.name = n
        o = opts.gen(r, (), "read", allow_prefix=0, allow_sel=0, separate=0.3)
        o.defs = [d for d in o.defs if "GDO" not in d]
        o.prefix = None
        o.no_date = True
        jobs.append((i, text, [s.name for s in syms], o, rand_prefix(r), r.choice(["hdr", "a-b", "gdo", "GDO_h", "x.gdo"])))

    def one(job):
        i, text, names, o, pfx, hn = job
        ext = ".hpp" if o.format in CXX else ".h"
        res = []
        for t, pf in ((text, None), (names_back(text), pfx)):
            w = os.path.join(root, "%d%s" % (i, "b" if pf else "a"))
            os.makedirs(w)
            o2 = opts.Opts()
            o2.__dict__.update(o.__dict__)
            o2.prefix = pf
            args = [a for n, v, _ in opts.items(o2) for a in opts.spell(r, n, v, True)]
            rr = tool.run(["-"] + args + ["-out=" + hn + ext], stdin=t.encode(), cwd=w)
            res.append((rr, {n: open(os.path.join(w, n), encoding="utf-8", errors="surrogateescape").read() for n in sorted(os.listdir(w))}, args))
        return res

    for (i, text, names, o, pfx, hn), ((ra, fa, aa), (rb, fb, ab)) in zip(jobs, pmap(one, jobs)):
        ident = sha(text + repr(o) + pfx + hn)
        if ra.timeout or rb.timeout:
            c.inconcl("timeout")
            continue
        fl = {"input.txt": names_back(text), "args.txt": repr(ab)}
        for n in fb:
            fl["got_" + n] = fb[n]
        if ra.rc or rb.rc:
            c.violation("fails:" + ident, "generation fails: %s\n%s%s" % (ab, ra.text(400), rb.text(400)), fl)
            continue
        if sorted(fa) != sorted(fb):
            c.violation("files:" + ident, "files %s, with prefix %s: %s" % (sorted(fa), pfx, sorted(fb)), fl)
            continue
        bad = None
        for n in fa:
            # the guard names the file: only its prefix is renamed
            guard = "_GDO_" + re.sub(r"[^A-Za-z0-9]", "_", n).upper() + "_"
            inc = '#include "%s"' % n
            want = []
            for l in fa[n].split("\n"):
                if l.startswith("#line ") and '"' in l:
                    want.append(l)
                elif '#include "' in l:
                    want.append(l)
                elif l == "":
                    want.append(l)
                else:
                    want.append(gen.rename(l, pfx))
            want = names_back("\n".join(want))
            if want != fb[n]:
                for x, (a, b) in enumerate(zip(want.split("\n"), fb[n].split("\n"))):
                    if a != b:
                        break
                bad = "%s:%d is %r, the renamed default output has %r" % (n, x + 1, b[:200], a[:200])
                break
        if bad:
            c.violation("rename:" + ident, "prefix %s: %s\n%s" % (pfx, bad, ab), fl)
            continue
        c.case(ident)
        c.count("outputs_compared"); c.count("lines_compared", sum(x.count("\n") for x in fb.values()))
        left = []
        if "gdo" not in pfx.lower() and "qzy" not in text.lower() and "gdo" not in hn.lower():
            for n in fb:
                for m in re.finditer(r"[A-Za-z0-9_]*gdo[A-Za-z0-9_]*", fb[n], re.I):
                    left.append(m.group(0))
            c.count("outputs_searched")
        if left:
            c.violation("left:" + ident, "prefix %s: default-prefix names left: %s\n%s" % (pfx, sorted(set(left))[:8], ab), fl)
    c.sample({"prefix": jobs[0][4], "args": repr(jobs[0][3])})


def objects(c, tool):
    """what the preprocessor and the linker see"""
    r = c.rng
    root = c.mkdir("obj")
    jobs = []
    for i in range(c.n(30, 250)):
        fmt = FMTS[i % 5]
        syms = decl.gen_decls(r, decl.Spec(named=False, nsyms=(1, 6)))
        pfx = r.choice([p for p in PREFIXES if p not in ("_", "define", "int2", "do")])
        sep = fmt in ("c", "c++", "plugin") and r.random() < 0.4
        defs = r.choice([[], [], ["WRAP_FUNCTIONS"], ["ENABLE_AUTOLOAD", 'DEFAULT_LIB="x.so"'], ["ENABLE_AUTOLOAD_LAZY", 'DEFAULT_LIB="x.so"']]) + r.choice([[], ["DISABLE_ALIASING"]])
        jobs.append((i, fmt, syms, pfx, sep, defs))

    def one(job):
        i, fmt, syms, pfx, sep, defs = job
        w = os.path.join(root, str(i))
        cfg = Config(fmt=fmt, prefix=pfx, separate=sep)
        hdr, body = gen.generate(c, tool, w, syms, cfg)
        cc = "g++" if fmt in CXX else "gcc"
        open(w + "/prelude.h", "w").write(decl.PRELUDE)
        P = gen.rename("GDO_", pfx)
        src = w + "/t" + (".cpp" if fmt in CXX else ".c")
        base = [cc, "-w", "-include", w + "/prelude.h"] + ["-D" + P + d for d in defs] + ["-D" + P + "DISABLE_WARNINGS"]
        open(src, "w").write("")
        m0 = run(base + ["-include", "dlfcn.h", "-include", "string.h", "-include", "stdio.h", "-include", "stdlib.h", "-include", "limits.h", "-include", "errno.h", "-include", "link.h", "-include", "unistd.h", "-include", "stdbool.h", "-D_GNU_SOURCE", "-dM", "-E", src])
        open(src, "w").write('#include "%s"\n' % hdr)
        pre = run(base + ["-dD", "-E", src])
        default_ok = False
        comp = run(base + ["-c", body or src, "-o", w + "/t.o"])
        if comp.rc or pre.rc:
            w2 = w + "d"
            h2, b2 = gen.generate(c, tool, w2, syms, Config(fmt=fmt, separate=sep))
            src2 = w2 + "/t" + (".cpp" if fmt in CXX else ".c")
            open(src2, "w").write('#include "%s"\n' % h2)
            d = run([cc, "-w", "-include", w + "/prelude.h"] + ["-DGDO_" + x for x in defs] + ["-DGDO_DISABLE_WARNINGS", "-c", b2 or src2, "-o", w2 + "/t.o"])
            default_ok = d.rc == 0
        nm = run(["nm", "-g", "--defined-only", "-C", w + "/t.o"]) if comp.rc == 0 else None
        return hdr, m0, pre, comp, nm, default_ok

    for (i, fmt, syms, pfx, sep, defs), (hdr, m0, pre, comp, nm, default_ok) in zip(jobs, pmap(one, jobs)):
        ident = sha(repr((fmt, pfx, sep, defs)) + decl.plain_text(syms))
        what = "%s prefix %s separate %s macros %s" % (fmt, pfx, sep, defs)
        if pre.rc or comp.rc or m0.rc:
            if default_ok:
                c.violation("compile:" + ident, "%s: does not compile, with the default prefix it does\n%s" % (what, comp.text(1500)), {"input.txt": decl.plain_text(syms)})
            c.count("not_compiled")                # T14 judges that
            continue
        names = {s.name for s in syms}
        U, L = gen.rename("GDO_", pfx), gen.rename("gdo_", pfx)
        live, infile = {}, False
        for l in pre.out.decode("utf-8", "replace").splitlines():
            m = re.match(r'# \d+ "(.*)"', l)
            if m:
                infile = m.group(1) == hdr
            m = re.match(r"#(define|undef) (\w+)(.*)", l)
            if m and infile:
                if m.group(1) == "define":
                    live[m.group(2)] = m.group(3).strip()
                else:
                    live.pop(m.group(2), None)
        bad = [n for n in live if not n.startswith((U, "_" + U, L, "_" + L)) and n not in names and not OTHER.match(n) and not re.fullmatch(r"\(?(0[xX][0-9a-fA-F]+|\d+)\)?", live[n])]
        if bad:
            c.violation("macros:" + ident, "%s: macros without the prefix: %s" % (what, bad[:10]), {"input.txt": decl.plain_text(syms)})
            continue
        bad = []
        for l in nm.out.decode("utf-8", "replace").splitlines():
            f = l.split(" ", 2)
            if f[1] in "WVuw":
                continue
            n = f[2]
            if not n.startswith((L, "_" + L, L[:-1] + "::")) and not re.match(r"(typeinfo|vtable|typeinfo name|guard variable|construction vtable).* for %s::" % re.escape(L[:-1]), n) and n.split("(")[0] not in names:
                if ("%s::" % L[:-1]) not in n:
                    bad.append(n)
        if bad:
            c.violation("symbols:" + ident, "%s: linker symbols without the prefix: %s" % (what, bad[:10]), {"input.txt": decl.plain_text(syms)})
            continue
        c.case(ident)
        c.count("macros_seen", len(live))
        c.count("linker_symbols_seen", nm.out.count(b"\n"))


COMBOS = [("c", "c"), ("c", "c++"), ("c++", "c++"), ("c", "minimal"), ("minimal", "minimal"), ("c++", "minimal-c++"), ("minimal-c++", "minimal-c++"), ("minimal", "minimal-c++"), ("c", "c", "c"), ("c++", "c", "c++"), ("c", "c++", "minimal")]
PAIRS = [("gdo", "abc"), ("gdo", "gdo2"), ("ab", "ab_c"), ("x", "X1"), ("gdo", "x_gdo"), ("My_Lib", "my_Lib2"), ("_p", "p"), ("gdo", "gdo_"), ("a", "aa"), ("lib", "dl"), ("wrap", "gdo")]
THIRD = ["zz9", "Third_", "q_q"]


def programs(c, tool):
    r = c.rng
    seeds = [(k, r.getrandbits(64)) for k in range(c.n(22, 110))]
    off = r.randrange(len(COMBOS))

    def build(x):
        k, seed = x
        try:
            return make(c, tool, random.Random(seed), k, COMBOS[(off + k) % len(COMBOS)])
        except HarnessError as e:
            # is it the prefixes?
            try:
                make(c, tool, random.Random(seed), "n%d" % k, COMBOS[(off + k) % len(COMBOS)], neutral=True)
                e.prefix_fault = True
            except HarnessError:
                e.prefix_fault = False
            return e
    built = pmap(build, seeds)
    bad = [b for b in built if isinstance(b, HarnessError)]
    for e in bad:
        c.count("builds_set_aside")
        c.extra.setdefault("builds_set_aside_why", []).append(str(e)[:1500])
    if len(bad) * 2 > len(built):
        raise bad[0]
    work = []
    for b in built:
        if isinstance(b, HarnessError):
            if b.prefix_fault:
                c.violation("clash:" + sha(str(b))[:8], "interfaces with different prefixes cannot be used in one program\n%s" % str(b)[:3000])
            continue
        for _ in range(c.n(40, 300)):
            work.append((b, script(r, b)))

    def one(x):
        b, s = x
        return gen.run_script(b["exe"], b["w"], "m%d" % id(s), "\n".join(s) + "\n", san=b["san"], timeout=60)

    for (b, s), (res, log) in zip(work, pmap(one, work)):
        if res.timeout:
            c.inconcl("timeout")
            continue
        if res.rc in (90, 91, 92, 93, 95, 96, 97):
            raise HarnessError("driver protocol error %d: %s" % (res.rc, log[-500:]))
        files = lambda: {"script.txt": "\n".join(s), "log.txt": log, "config.txt": "\n".join("%r\n%s" % (p.cfg, [x.name for x in p.syms]) for p in b["parts"]) + res.text(2000)}

        def report(aspect, st, msg):
            c.violation("%s:%s" % (aspect, re.sub(r"0x[0-9a-f]+|\d+|'[^']*'", "#", msg)[:60]), "interfaces %s: op %s: %s" % (["%s/%s" % (p.cfg.fmt, p.cfg.prefix or "gdo") for p in b["parts"]], st and (st.n, st.cmd), msg), files())
        models = {}
        for k, p in enumerate(b["parts"]):
            models[p.state] = multi.MODELS[p.cfg.fmt][1]([x.name for x in p.syms], b["byp"], b["dflt"][k], report, hist.RTLD_LAZY)
            models[p.state].gidx = [b["names"].index(x.name) for x in p.syms]
            models[p.state].coload = True
        judged, compared = multi.judge(b["parts"], models, s, log, report)
        if res.rc != 0:
            report("crash", None, "the program ended with status %s\n%s" % (res.rc, res.text(1500)))
        c.case(sha(repr(s) + str(b["k"])), nontrivial=sum(m.ld.opens > 0 for m in models.values()) > 1)
        c.count("operations_judged", judged)
        c.count("cross_interface_comparisons", compared)
        c.count("libraries_opened", sum(m.ld.opens for m in models.values()))
    if work:
        c.sample({"script": work[0][1][:16], "interfaces": [repr(p.cfg) for p in work[0][0]["parts"]]})


def make(c, tool, r, k, combo, neutral=False):
    w = c.mkdir("m%s" % k)
    pf = list(r.choice(PAIRS)) + ([r.choice(THIRD)] if len(combo) == 3 else [])
    r.shuffle(pf)
    if neutral:
        pf = ["vka", "wkb", "xkc"][:len(combo)]
    base = [s for s in rbuild.names_for(r, r.randrange(11))][:20]
    names = [s.name for s in base]
    how = r.choice(["same", "same", "shuffled", "overlap", "disjoint"])
    onetu = r.random() < 0.5
    onex = any(f in CXX for f in combo) or r.random() < 0.3
    sets = []
    for n in range(len(combo)):
        if how == "same":
            s = list(base)
        elif how == "shuffled":
            s = r.sample(base, len(base))
        elif how == "overlap":
            s = r.sample(base, r.randint(1, len(base)))
        else:
            s = base[n::len(combo)] or base[:1]
        sets.append([x for x in s if x.is_func] + [x for x in s if not x.is_func])
    shared = any(set(x.name for x in a) & set(x.name for x in b) for i, a in enumerate(sets) for b in sets[:i])
    libs = gen.libset(c, r, w, base, "m%s" % k)
    san = r.choice(["plain", "plain", "asan"])
    ccs = r.choice(["gcc", "clang"]) if onetu else None
    parts, bodies, dflt = [], [], []
    ustd = r.choice([None, "c++11", "c++20"])
    for n, fmt in enumerate(combo):
        cxx = fmt in CXX or (fmt in ("c", "minimal") and (r.random() < 0.25 if not onetu else onex))
        cfg = Config(fmt=fmt, prefix=None if pf[n] == "gdo" else pf[n], cc=ccs or r.choice(["gcc", "clang"]), san=san, olevel=r.choice(["-O0", "-O1", "-O2"]), separate=fmt in ("c", "c++") and r.random() < 0.4)
        P = gen.rename("GDO_", pf[n]) if pf[n] != "gdo" else "GDO_"
        d = []
        if fmt in ("c", "minimal") and not cfg.separate and not cxx and r.random() < 0.3:
            d.append(P + "STATIC")
        if fmt in ("c", "c++") and r.random() < 0.3:
            d.append(P + r.choice(["WRAP_FUNCTIONS", "ENABLE_AUTOLOAD", "ENABLE_AUTOLOAD_LAZY"]))
        wrapped = any("WRAP" in x or "AUTO" in x for x in d)
        if (onetu and shared) or (not wrapped and r.random() < 0.3) or onetu and wrapped:
            d.append(P + "DISABLE_ALIASING")
        d.append(P + "DISABLE_WARNINGS")
        cfg.defs = d
        lib = libs[r.choice("AABM")].path
        dflt.append(lib)
        cfg.opts = ["-library=" + lib]
        wd = os.path.join(w, "g%d" % n)
        hdr, body = gen.generate(c, tool, wd, sets[n], cfg, name="hdr%d" % n)
        # one directory for all
        for f in os.listdir(wd):
            os.rename(os.path.join(wd, f), os.path.join(w, f))
        if body:
            bodies.append((os.path.join(w, os.path.basename(body)), cfg, fmt == "c++"))
        cfg.inc = None
        parts.append(multi.Part(cfg, sets[n], hdr, cxx, n))
    if onetu:
        x = any(p.cxx for p in parts)
        for p in parts:
            p.cxx = x
            p.cfg.std = ustd if x else None
    else:
        for p in parts:
            p.cfg.std = r.choice([None, "c++11", "c++20"]) if p.cxx else r.choice([None, "c99", "gnu17"])
    units = [list(range(len(parts)))] if onetu else [[n] for n in range(len(parts))]
    exe = multi.build(w, parts, units, bodies, names, san=san)
    return dict(k=k, w=w, parts=parts, names=names, libs=libs, byp={l.path: l for l in libs.values()}, dflt=dflt, exe=exe, san=san)


def one_script(r, b, k, n, faults):
    p = b["parts"][k]
    names = [s.name for s in p.syms]
    if p.cfg.fmt == "c":
        return hist.gen_c(r, names, b["libs"], n, faults=faults, errs=0.35, paths=0.05, longerr=False, ns=0.03)
    if p.cfg.fmt == "c++":
        return hist.gen_cxx(r, names, b["libs"], n, faults=faults, errs=0.35, paths=0.05, longerr=False, ns=0.03)
    return hist.gen_min(r, names, b["libs"], n, faults=faults)


def script(r, b):
    n = r.choice([6, 15, 30, 60])
    faults = r.random() < 0.6
    todo = [one_script(r, b, k, n, faults) for k in range(len(b["parts"]))]
    out, cur = [], 0
    while any(todo):
        if r.random() < 0.4 or not todo[cur]:
            cur = r.choice([k for k, t in enumerate(todo) if t])
        l = todo[cur].pop(0)
        out.append(l if l.startswith("fault") else "@%d %s" % (cur, l))
    return out
