"""T13: what options add to the output is exactly what was asked for."""
import difflib, os, re
from vk import decl, opts
from vk.core import HarnessError, pmap, run, sha
from vk.tool import Tool

TECHNIQUE = "runtime monitoring: headers generated with random option values are compiled into probe programs that report, at run time, the macros, include order and name helpers they see; option flips compared line by line"
LEVEL_NOTE = "exploration: random option values; other platforms' file name macros observed through the preprocessor only"

FMTS = ["c", "c++", "minimal", "minimal-c++", "plugin"]
CXX = ("c++", "minimal-c++")
NAMECH = "abcxyzABZ019._-+/ %$@~#é&=,:;!(){}[]|<>?*^`'"
HOSTILE = NAMECH + '"\\' + '"\\'


def c_str(s):
    """octets of a literal for s"""
    return s.encode("utf-8")


def gen_lib(r, syms):
    """(option value, narrow name, wide name or None if not looked at)"""
    k = r.choice(["plain", "plain", "hostile", "quoted", "nq", "ext", "ext", "api", "api", "near", "exthostile"])

    def name(chars, lo=1, hi=24):
        return "".join(r.choice(chars) for _ in range(r.randint(lo, hi)))
    if k == "plain":
        v = r.choice(["libfoo.so.1", "./x/../lib y.so", "/opt/a-b_c/l.so", name(NAMECH)])
    elif k == "hostile":
        v = name(HOSTILE)
    elif k == "exthostile":
        b = name(HOSTILE)
        if b.startswith('"') and b.endswith('"') or b.startswith('L"'):
            b = "x" + b
        return r.choice(["ext:", "EXT:", "Ext:"]) + b, b + ".so", b + ".so"
    elif k == "quoted":
        b = name(NAMECH, 0)
        return '"' + b + '"', b, b
    elif k == "nq":
        b = name(NAMECH)
        return r.choice(["nq:", "NQ:", "Nq:", "nQ:"]) + 'VK_RAW("' + b + '")', b, None
    elif k == "ext":
        b = name(NAMECH)
        q = r.random() < 0.3
        return r.choice(["ext:", "EXT:", "eXt:"]) + ('"%s"' % b if q else b), b + ".so", b + ".so"
    elif k == "api":
        b = r.choice([name("abcxyzABZ019._-+"), r.choice(syms), "foo", "a.b", "bar-2", "a:b", "x::y:2", ":z"])
        n = r.choice(["0", "1", "2", "12", "1.2", "10.0.3", "007"])
        return r.choice(["api:", "API:", "Api:"]) + n + ":" + b, "lib%s.so.%s" % (b, n), None if b in syms else "lib%s.so.%s" % (b, n)
    else:
        v = r.choice(["n", "nq", "nq:", "e", "ext", "ext:", "a", "api", "api:", "api:2", "api:foo", "nqx:foo", "xnq:foo", "ext foo", "apis:1:foo",
                      "N:foo", "extra:foo", "q:foo", "nq;foo", "L", "Lfoo", '"', 'L"', 'a"', '"a', "\\", "\\\\", "a\\nb.so", "lib=x=y.so"])
    if v.startswith('"') and v.endswith('"') and len(v) > 1 or v.startswith('L"') or re.match(r"(?i)(nq|ext):.|api:.*:", v):
        v = "x" + v
    return v, v, v


def gen_defs(r, P):
    """[(option value, name, expected value)]"""
    out, have = [], {}
    for i in range(r.choice([0, 1, 2, 3, 5])):
        n = r.choice(["VKD_A", "VKD_B", "VKD_C", "VKD_D", "_vkd_e", "VKD_%d" % r.randrange(99), P + "_VKD", "VKD_LONG_NAME_0123456789"])
        v = r.choice([None, "", "1", "0x1F", "(1+2)", '"str"', '"a b  c"', "a=b", "==", "-1", "'c'", '"q\\"q"', "a,b", "x+y*z", "/", "...", "{1,2}"])
        pad = r.choice(["", "", "", " "])
        out.append((pad + n + pad + ("" if v is None else "=" + v), n, v or ""))
        have.setdefault(n, v or "")
    if r.random() < 0.1:
        # blanks are no part of the name, so this names nothing
        out.insert(r.randint(0, len(out)), (r.choice([" ", "  ", " =7", "  =x y"]), None, None))
    return out, have


def gen_incs(r, i):
    """[(option value, how, file id)] plus the definitions it needs"""
    out, defs = [], []
    ids = r.sample(range(6), r.choice([0, 0, 1, 2, 3, 4]))
    for k in ids:
        f = "vki%d.h" % k
        how = r.choice(["plain", "quoted", "angle", "nq", "nqangle", "nqmacro", "sub"])
        if how == "plain":
            out.append((f, "local", k))
        elif how == "quoted":
            out.append(('"%s"' % f, "local", k))
        elif how == "angle":
            out.append(("<%s>" % f, "system", k))
        elif how == "nq":
            out.append((r.choice(["nq:", "NQ:", "nQ:"]) + '"%s"' % f, "local", k))
        elif how == "nqangle":
            out.append((r.choice(["nq:", "Nq:"]) + "<%s>" % f, "system", k))
        elif how == "nqmacro":
            defs.append(("VKM_%d=<%s>" % (k, f), "VKM_%d" % k, None))
            out.append(("nq:VKM_%d" % k, "system", k))
        else:
            out.append(("sub dir/../" + f, "local", k))
    return out, defs


def check(c):
    c.rule = ("random -library (default, quoted, nq, ext, api:N, near misses, hostile characters), -D (values, empty, duplicates, predefined), -include (quotes, brackets, nq, macro) "
              "x format x prefix x guard style x C/C++ compiler; each header included twice and from two paths, its probe program run; "
              "option flips compared by line; name helpers of six platforms; non-trivial: every compiled probe")
    c.assumptions = ["a name given in \"...\" is a valid literal; names hold no control characters; api names are preprocessor tokens",
                     "-D takes object-like macros (NAME or NAME=VALUE)"]
    tool = Tool(c)
    probes(c, tool)
    flips(c, tool)
    platforms(c, tool)


def probes(c, tool):
    r = c.rng
    root = c.mkdir("probe")
    sysd = os.path.join(root, "sys")
    os.makedirs(sysd + "/sub dir")
    inc = "#ifndef VKI_%d\n#define VKI_%d 1\nenum { vki_order_%d = __COUNTER__, vki_from_%d = %d };\n%s#endif\n"
    for k in range(6):
        open(sysd + "/vki%d.h" % k, "w").write(inc % (k, k, k, k, 2, ""))
    cases = []
    for i in range(c.n(220, 2600)):
        fmt = r.choice(FMTS)
        syms = decl.gen_decls(r, decl.Spec(named=True, nsyms=(1, 5)))
        prefix = r.choice(["gdo"] * 7 + ["abc", "My_Lib", "zz9"])
        P = prefix.upper()
        names = [s.name for s in syms]
        lib = gen_lib(r, names) if r.random() < 0.85 else None
        defs, have = gen_defs(r, P)
        incs, idefs = gen_incs(r, i)
        over = None
        if r.random() < 0.15:
            over = r.choice(["over.so", "o v.so"])
            defs.append(('%s_DEFAULT_LIB="%s"' % (P, over), None, None))
        pre = {n: "PREDEF" for n in have if r.random() < 0.2}
        guard = r.random() < 0.5
        hname = r.choice(["gen", "a-b", "x.y", "7up", "_u", "H", "é", "a b"]) + (".hpp" if fmt in CXX else ".h")
        comp = "g++" if fmt in CXX else r.choice(["gcc", "gcc", "g++"])
        cases.append(dict(i=i, fmt=fmt, syms=syms, prefix=prefix, lib=lib, defs=defs, idefs=idefs, have=have, incs=incs, over=over, pre=pre,
                          guard=guard, hname=hname, comp=comp))

    def args_of(k):
        items = []
        for v, _, _ in k["idefs"]:
            items.append(("D", v))
        ds = [("D", v) for v, _, _ in k["defs"]]
        ins = [("I", v) for v, _, _ in k["incs"]]
        # relative order within a kind matters; the kinds may be mixed
        seqs = [s for s in (items + ds, ins) if s]
        a = []
        while seqs:
            s = seqs[k["i"] % len(seqs)] if len(a) % 3 else seqs[0]
            kind, v = s.pop(0)
            if kind == "D":
                a += ["-D" + v] if (v.startswith(" ") or len(a) % 2) else ["-D", v]
            else:
                a += ["-include=" + v] if len(a) % 2 else ["--include", v]
            seqs = [x for x in seqs if x]
        if k["lib"]:
            a.insert(0, "-library=" + k["lib"][0])
        a += ["-format=" + k["fmt"]]
        if k["prefix"] != "gdo":
            a += ["-prefix=" + k["prefix"]]
        if k["guard"]:
            a += ["-no-pragma-once"]
        return a

    def one(k):
        w = os.path.join(root, "c%d" % k["i"])
        os.makedirs(w + "/sub dir")
        P, p = k["prefix"].upper(), k["prefix"].lower()
        for n in range(6):
            open(w + "/vki%d.h" % n, "w").write(inc % (n, n, n, n, 1, "".join("#ifndef %s\n#error no %s\n#endif\n" % (m, m) for m in k["have"])))
        args = args_of(k)
        text = decl.plain_text(k["syms"])
        k["text"], k["args"] = text, args
        res = tool.run(["-"] + args + ["-out=" + w + "/" + k["hname"]], stdin=text.encode())
        if res.rc != 0:
            return "generate", res
        o = ['#include "prelude.h"', "#define VK_RAW(x) x", '#include "%s"' % k["hname"], '#include "%s"' % k["hname"]]
        if k["guard"]:
            # the same header found at another place
            os.makedirs(w + "/copy")
            open(w + "/copy/" + k["hname"], "wb").write(open(w + "/" + k["hname"], "rb").read())
            o.append('#include "copy/%s"' % k["hname"])
        open(w + "/prelude.h", "w").write(decl.PRELUDE)
        o += ["#include <stdio.h>", "#include <wchar.h>", "#define VK_S(x...) #x", "#define VK_X(x...) VK_S(x)",
              "static void vk_put(const char *n, const char *s) { printf(\"%s \", n); while (*s) printf(\"%02x\", (unsigned char)*s++); puts(\"\"); }",
              "static void vk_putw(const char *n, const wchar_t *s) { printf(\"%s \", n); while (*s) printf(\"%x,\", (unsigned)*s++); puts(\"\"); }",
              "int main(void) {"]
        for m in ("HARDCODED_DEFAULT_LIBA", "DEFAULT_LIBA", "DEFAULT_LIB"):
            o += ["#ifdef %s_%s" % (P, m), 'vk_put("%s", %s_%s);' % (m, P, m), "#endif"]
        if k["lib"] and k["lib"][2] is not None:
            o += ["#ifdef %s_HARDCODED_DEFAULT_LIBW" % P, 'vk_putw("W", %s_HARDCODED_DEFAULT_LIBW);' % P, "#endif"]
        o += ['vk_put("EXT", %s_LIBEXT);' % P, 'vk_put("EXTA", %s_LIBEXTA);' % P, 'vk_putw("EXTW", %s_LIBEXTW);' % P,
              'vk_put("NAME", %s_LIBNAME(vkprobename-1, 2.3));' % P, 'vk_put("NAMEA", %s_LIBNAMEA(vkprobename, 0));' % P, 'vk_putw("NAMEW", %s_LIBNAMEW(vkprobename, 7));' % P]
        if k["fmt"] == "c++":
            o += ['vk_put("MK", %s::make_libname("vkz", 12).c_str());' % p, 'vk_put("MK0", %s::make_libname(std::string(), 0).c_str());' % p]
        for n in list(k["have"]) + ["VKD_NEVER"]:
            o += ["#ifdef " + n, 'vk_put("D:%s", VK_X(%s));' % (n, n), "#endif"]
        for n in range(6):
            o += ["#ifdef VKI_%d" % n, 'printf("I:%d %%d %%d\\n", (int)vki_order_%d, (int)vki_from_%d);' % (n, n, n), "#endif"]
        o += ["return 0; }"]
        src = os.path.join(w, "probe.cpp" if k["comp"] == "g++" else "probe.c")
        open(src, "w").write("\n".join(o) + "\n")
        cc = run([k["comp"], "-w", "-std=gnu++17" if k["comp"] == "g++" else "-std=gnu11", "-I" + sysd, "-I" + sysd + "/sub dir"]
                 + ["-D%s=PREDEF" % n for n in k["pre"]] + [src, "-o", w + "/probe"], timeout=120)
        if cc.rc != 0:
            return "compile", cc
        return "run", run([w + "/probe"], cwd=w)

    def files(k):
        w = os.path.join(root, "c%d" % k["i"])
        d = {"input.txt": k["text"], "args.txt": repr(k["args"])}
        for n in (k["hname"], "probe.c", "probe.cpp"):
            if os.path.exists(os.path.join(w, n)):
                d[n] = open(os.path.join(w, n), "rb").read()
        return d

    for k, (stage, res) in zip(cases, pmap(one, cases)):
        ident = sha(repr(k["args"]) + k["hname"])
        if res.timeout:
            c.inconcl("timeout")
            continue
        if res.rc != 0:
            c.violation("%s:%s" % (stage, ident), "%s fails: %s\n%s" % (stage, k["args"], res.text()), files(k))
            continue
        got = dict(l.split(" ", 1) if " " in l else (l, "") for l in res.out.decode().splitlines())
        want = {}

        def wide(s):
            return "".join("%x," % ord(ch) for ch in s)
        if k["lib"]:
            want["HARDCODED_DEFAULT_LIBA"] = c_str(k["lib"][1]).hex()
            if k["lib"][2] is not None:
                want["W"] = wide(k["lib"][2])
        if k["fmt"] in ("c", "c++", "plugin"):
            e = k["over"] if k["over"] is not None else k["lib"][1] if k["lib"] else None
            if e is not None:
                want["DEFAULT_LIB"] = c_str(e).hex()
                want["DEFAULT_LIBA"] = c_str(e if not (k["over"] and k["lib"]) else k["lib"][1]).hex()
        elif k["over"] is not None:
            want["DEFAULT_LIB"] = c_str(k["over"]).hex()
        want.update({"EXT": b".so".hex(), "EXTA": b".so".hex(), "EXTW": wide(".so"), "NAME": b"libvkprobename-1.so.2.3".hex(), "NAMEA": b"libvkprobename.so.0".hex(),
                     "NAMEW": wide("libvkprobename.so.7")})
        if k["fmt"] == "c++":
            want["MK"] = b"libvkz.so.12".hex()
            want["MK0"] = b"lib.so.0".hex()
        for n, v in k["have"].items():
            want["D:" + n] = ("PREDEF" if n in k["pre"] else v).encode().hex()
        ig = {n: got.pop(n).split() for n in [x for x in got if x.startswith("I:")]}
        bad = []
        if got != want:
            for n in sorted(set(got) | set(want)):
                if got.get(n) != want.get(n):
                    def dec(x):
                        if x is None:
                            return None
                        try:
                            return bytes.fromhex(x).decode("utf-8", "replace") if "," not in x else "".join(chr(int(y, 16)) for y in x.split(",") if y)
                        except ValueError:
                            return x
                    bad.append("%s is %r, asked for %r" % (n, dec(got.get(n)), dec(want.get(n))))
        wi = {"I:%d" % f: how for _, how, f in k["incs"]}
        if set(ig) != set(wi):
            bad.append("included files %s, asked for %s" % (sorted(ig), sorted(wi)))
        else:
            order = sorted(ig, key=lambda x: int(ig[x][0]))
            if order != list(wi):
                bad.append("include order %s, asked for %s" % (order, list(wi)))
            for n, how in wi.items():
                if ig[n][1] != ("1" if how == "local" else "2"):
                    bad.append("%s taken from the wrong place (asked for %s)" % (n, how))
        if bad:
            c.violation("probe:" + ident, "%s\nargs %s" % ("; ".join(bad), k["args"]), files(k))
            continue
        c.case(ident)
        c.count("probes_run"); c.count("macros_observed", len(want)); c.count("includes_observed", len(wi)); c.count("libraries_observed", 1 if k["lib"] else 0)
        if k["i"] % 60 == 0:
            c.sample({"args": k["args"], "observed": {n: want[n] for n in list(want)[:4]}})


def flips(c, tool):
    """an option changes what it is documented to change, and nothing else"""
    r = c.rng
    root = c.mkdir("flip")
    jobs = []
    for i in range(c.n(150, 1500)):
        syms = decl.gen_decls(r, decl.Spec(named=True, nsyms=(1, 6)))
        o = opts.gen(r, (), "read", allow_prefix=0.1, separate=0)
        o.line = False
        o.no_date, o.no_pragma = True, r.random() < 0.5
        flip = r.choice(["D", "include", "library", "guard", "date", "separate"])
        jobs.append((i, decl.plain_text(syms), o, flip))

    def args(o):
        return [a for n, v, _ in opts.items(o) for a in opts.spell(r, n, v, True)]

    def one(job):
        i, text, o, flip = job
        import copy
        a, b = copy.deepcopy(o), copy.deepcopy(o)
        if flip == "D":
            b.defs = b.defs[:i % (len(b.defs) + 1)] + ["VKFLIP_%d=x%d" % (i, i)] + b.defs[i % (len(b.defs) + 1):]
        elif flip == "include":
            b.incs = b.incs[:i % (len(b.incs) + 1)] + ["vkflip%d.h" % i] + b.incs[i % (len(b.incs) + 1):]
        elif flip == "library":
            a.library, b.library = None, "vkflip%d.so" % i
        elif flip == "guard":
            a.no_pragma, b.no_pragma = False, True
        elif flip == "date":
            a.no_date, b.no_date = True, False
        else:
            b.separate = True
        out = []
        for x, o2 in (("a", a), ("b", b)):
            w = os.path.join(root, "%d%s" % (i, x))
            os.makedirs(w)
            res = tool.run(["-"] + args(o2) + ["-out=" + w + "/vkout" + os.path.splitext(o.header_name())[1]], stdin=text.encode())
            out.append((res, {n: open(os.path.join(w, n), "rb").read().decode("utf-8", "replace") for n in sorted(os.listdir(w))}))
        return out

    for (i, text, o, flip), ((ra, fa), (rb, fb)) in zip(jobs, pmap(one, jobs)):
        ident = sha(text + repr(o) + flip)
        if ra.timeout or rb.timeout:
            c.inconcl("timeout")
            continue
        fl = {"input.txt": text, "opts.txt": repr(o) + "\nflip " + flip}
        for t, f in (("without_", fa), ("with_", fb)):
            for n in f:
                fl[t + n] = f[n]
        if ra.rc or rb.rc:
            c.violation("flipfails:" + ident, "generation fails (%s)\n%s%s" % (flip, ra.text(500), rb.text(500)), fl)
            continue
        bad = judge_flip(i, o, flip, fa, fb)
        if bad:
            c.violation("flip:" + ident, "%s: %s\n%r" % (flip, bad, o), fl)
            continue
        c.case(ident)
        c.count("flips_" + flip)


def judge_flip(i, o, flip, fa, fb):
    la = list(fa.values())[0].split("\n")
    if flip == "separate":
        minimal = o.format in ("minimal", "minimal-c++")
        if minimal:
            return None if list(fa.values()) == list(fb.values()) else "-separate changed a minimal header"
        cxx = o.format in ("c++", "minimal-c++")
        if sorted(fb) != (["vkout.cpp", "vkout.hpp"] if cxx else ["vkout.c", "vkout.h"]):
            return "files written: %s" % sorted(fb)
        both = [l for f in fb.values() for l in f.split("\n")]
        from collections import Counter
        ca, cb = Counter(l.strip() for l in la), Counter(l.strip() for l in both)
        lost = [l for l in ca - cb if l]
        if lost:
            return "lines lost: %s" % lost[:5]
        P = (o.prefix or "gdo").upper()
        body = fb["vkout.cpp" if cxx else "vkout.c"].split("\n")
        head = 0
        while head < len(body) and "#include" not in body[head]:
            head += 1
        allowed = Counter(l.strip() for l in body[:head + 1])
        more = [l for l in cb - ca - allowed if l and l != "#define %s_SEPARATE" % P]
        if more:
            return "unexpected lines: %s" % more[:5]
        return None
    lb = list(fb.values())[0].split("\n")
    add, rem = [], []
    for l in difflib.ndiff(la, lb):
        if l.startswith("+ "):
            add.append(l[2:])
        elif l.startswith("- "):
            rem.append(l[2:])
    add, rem = [l for l in add if l.strip()], [l for l in rem if l.strip()]
    if flip == "D":
        n = "VKFLIP_%d" % i
        add = [l for l in add if n not in l and l.strip() not in ("#endif",) and not l.startswith("/*")]
        if not any("VKFLIP" in l for l in lb):
            return "definition missing"
    elif flip == "include":
        add = [l for l in add if l.split() != ["#include", '"vkflip%d.h"' % i]]
        if not any("vkflip" in l for l in lb):
            return "include missing"
    elif flip == "library":
        add = [l for l in add if "HARDCODED_DEFAULT_LIB" not in l and not l.startswith("/*")]
    elif flip == "guard":
        rem = [l for l in rem if "pragma once" not in l]
        g = [l.split()[1] for l in add if l.startswith("#ifndef")]
        if len(g) != 1 or ("#define " + g[0]) not in [" ".join(l.split()) for l in add]:
            return "no include guard: %s" % add
        add = [l for l in add if g[0] not in l and not l.startswith("#endif")]
        if not re.fullmatch(r"[A-Za-z_]\w*", g[0]):
            return "guard %r" % g[0]
    elif flip == "date":
        if len(add) != 1 or len(rem) != 1:
            return "added %s removed %s" % (add[:4], rem[:4])
        m = re.fullmatch(r"(.*) on [A-Z][a-z]{2} \d{4}-\d\d-\d\d \d\d:\d\d:\d\d [-+]\d{4}\.", add[0])
        if not m or m.group(1) + "." != rem[0]:
            return "date line %r instead of %r" % (add[0], rem[0])
        return None
    if add or rem:
        return "added %s removed %s" % (add[:5], rem[:5])
    return None


PLATFORMS = [("linux", [], "%s", ".so", "lib%s.so.%s"), ("mingw", ["-D_WIN32", "-D__MINGW32__"], "%s", ".dll", "lib%s-%s.dll"),
             ("msvc", ["-D_WIN32"], "%s", ".dll", "%s-%s.dll"), ("msvc-unicode", ["-D_WIN32", "-D_UNICODE"], "L", ".dll", "%s-%s.dll"),
             ("macos", ["-D__APPLE__"], "%s", ".dylib", "lib%s.%s.dylib"), ("aix64", ["-D_AIX", "-D__64BIT__"], "%s", ".a", "lib%s.a(shr_64.o)"),
             ("aix32", ["-D_AIX", "-U__LP64__"], "%s", ".a", "lib%s.a(shr.o)"), ("android", ["-D__ANDROID__"], "%s", ".so", "lib%s.so")]


def platforms(c, tool):
    """file name macros of every documented platform, through the preprocessor (headers stubbed out)"""
    r = c.rng
    root = c.mkdir("plat")
    stub = os.path.join(root, "stub")
    jobs = []
    for fmt in FMTS:
        for pl in PLATFORMS:
            name, api = r.choice(["foo", "bar-2", "x_y", "a.b"]), r.choice(["0", "3", "1.2"])
            jobs.append((fmt, pl, name, api, r.choice([None, "ext:vkl", "api:%s:%s" % (api, name)])))

    def one(job):
        fmt, pl, name, api, lib = job
        w = os.path.join(root, fmt.replace("+", "p") + "_" + pl[0])
        os.makedirs(w)
        res = tool.run(["-", "-format=" + fmt, "-out=" + w + "/h"] + (["-library=" + lib] if lib else []), stdin=b"int f(int a);")
        if res.rc:
            return res, None
        # only the part behind the includes is looked at: includes are blanked
        text = re.sub(r"(?m)^[ \t]*#[ \t]*(include|error|pragma).*$", "", open(w + "/h").read())
        q = ['VKQ EXT GDO_LIBEXT', 'VKQ EXTA GDO_LIBEXTA', 'VKQ EXTW GDO_LIBEXTW', "VKQ NAME GDO_LIBNAME(%s,%s)" % (name, api), "VKQ NAMEA GDO_LIBNAMEA(%s,%s)" % (name, api),
             "VKQ NAMEW GDO_LIBNAMEW(%s,%s)" % (name, api)]
        if lib:
            q += ["VKQ LIBA GDO_HARDCODED_DEFAULT_LIBA", "VKQ LIBW GDO_HARDCODED_DEFAULT_LIBW"]
        open(w + "/t.c", "w").write(text + "\n" + "\n".join(q) + "\n")
        cpp = run(["gcc", "-E", "-P", "-undef", "-D__STDC__=1"] + (["-D__LP64__"] if "-U__LP64__" not in pl[1] else []) + pl[1] + [w + "/t.c"])
        return res, cpp

    for (fmt, pl, name, api, lib), (res, cpp) in zip(jobs, pmap(one, jobs)):
        ident = sha(repr((fmt, pl[0], name, api, lib)))
        if res.rc or cpp.rc:
            c.violation("platform:" + ident, "fails: %s" % (res.text() if res.rc else cpp.text()))
            continue
        got = {}
        for l in cpp.out.decode().splitlines():
            if l.startswith("VKQ "):
                _, k, rest = l.split(" ", 2)
                parts = re.findall(r'(L?)"((?:[^"\\]|\\.)*)"', rest)
                left = re.sub(r'L?"(?:[^"\\]|\\.)*"', "", rest).strip()
                got[k] = ("L" if any(p[0] for p in parts) else "", "".join(p[1] for p in parts), left)
        n = pl[4] % ((name, api) if pl[4].count("%s") == 2 else (name,))
        u = "L" if pl[2] == "L" else ""
        want = {"EXT": (u, pl[3], ""), "EXTA": ("", pl[3], ""), "EXTW": ("L", pl[3], ""), "NAME": (u, n, ""), "NAMEA": ("", n, ""), "NAMEW": ("L", n, "")}
        if lib:
            e = "vkl" + pl[3] if lib.startswith("ext") else n
            want["LIBA"], want["LIBW"] = ("", e, ""), ("L", e, "")
        if got != want:
            c.violation("platform:" + ident, "%s/%s: %s" % (fmt, pl[0], ["%s: %s, documented %s" % (x, got.get(x), want[x]) for x in want if got.get(x) != want[x]]))
            continue
        c.case(ident)
        c.count("platform_macro_sets")
