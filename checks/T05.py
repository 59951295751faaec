"""T05: nothing makes the generator crash, hang or corrupt memory."""
import glob, os, re, shutil
from vk import ast, decl
from vk.core import NCPU, REPO, VERIF, HarnessError, pmap, run, sha
from vk import tool as vtool
from vk.tool import Tool

TECHNIQUE = "runtime monitoring: AddressSanitizer/UBSan builds of the tool under structured mutation (whole process) and coverage-guided fuzzing (libFuzzer, in process); exit status, diagnostics and sanitizer reports are the oracle"
LEVEL_NOTE = "exploration: mutated declarations, AST dumps, templates, template directories and option values; hang = watchdog fired twice"

SAN = re.compile(rb"AddressSanitizer|runtime error:|LeakSanitizer|terminate called|Assertion .* failed|stack smashing|std::terminate|MemorySanitizer")
DICT = [b"int ", b"void", b"(", b")", b"(*", b"...", b",", b";", b"[", b"]", b"*", b"\n", b"\r\n", b"@\n", b"@\r\n", b"@", b"%", b"%%", b"%%symbol%%", b"%%type%%", b"%%args%%", b"%%func_symbol%%", b"%%obj_type%%",
        b"%%return%%", b"%%func_symbol_pad%%", b"%%obj_symbol_pad%%", b"%%param_names%%", b"%%sym_type%%", b"%%obj_symbol%%", b"%PARAM_SKIP_REMOVE_BEGIN%\n", b"%PARAM_SKIP_USE_BEGIN%\n", b"%PARAM_SKIP_END%\n", b"%PARAM_SKIP_",
        b"%option ", b"%option format=c++\n", b"/*", b"*/", b"//", b"\\\n", b"\\", b"#", b"#define X \\\n", b'"', b"'", b"struct ", b"enum {", b"}", b"typedef ", b"extern ", b"const ", b"\xef\xbb\xbf", b"\0", b"\xff", b"\x80",
        b"\x1b[0m", b"\x1b[", b"TranslationUnitDecl 0x", b"|-FunctionDecl 0x1 <a> col:1 f 'int (int)'\n", b"| `-ParmVarDecl 0x2 <a> col:1 a 'int'\n", b"`-VarDecl 0x3 <a> col:2 v 'int[3]'\n", b" '", b"':'", b"GDO_", b"gdo_", b"gdo",
        b"_GDO_", b"(((((((((", b")))))))))", b"#line 1", b"0", b"a" * 300]


def mutate(r, data):
    b = bytearray(data)
    for _ in range(r.choice([1, 1, 2, 3, 5, 10])):
        k = r.randrange(8)
        p = r.randint(0, len(b))
        if k == 0:
            b[p:p] = r.choice(DICT)
        elif k == 1:
            del b[p:p + r.choice([1, 1, 2, 5, 20, 200])]
        elif k == 2 and b:
            b[p % len(b)] = r.randrange(256)
        elif k == 3:
            q = r.randint(0, len(b))
            b[p:p] = b[q:q + r.choice([1, 5, 40])]
        elif k == 4:
            b[p:p + r.randint(0, 8)] = r.choice(DICT)
        elif k == 5:
            b[p:p] = bytes(r.randrange(256) for _ in range(r.randint(1, 8)))
        elif k == 6:
            del b[p:]
        else:
            b[p:p] = r.choice(DICT) * r.choice([2, 10, 100])
    return bytes(b)


def rndtext(r, n=12):
    return "".join(r.choice(["a", "B", "_", "9", " ", "-", "\"", "'", "%", "@", "\\", "/", "\n", "$1", "$&", "$", "(", ")", "<", ">", ":", "=", "é", "\x7f", "gdo", "GDO_", "nq:", "ext:", "api:", "L\"", "::", "."]) for _ in range(r.randint(0, n))).replace("\0", "")


def option_values(r):
    a = []
    for _ in range(r.randint(1, 5)):
        k = r.choice(["library", "D", "include", "prefix", "P", "S", "format", "param"])
        v = r.choice([rndtext(r), rndtext(r, 3), r.choice(["nq:", "ext:", "api:", "api:1:", "api::x", "api:1:x:y", "N", "e", "A", "\"", "\"\"", "L\"", "L\"\"", "L\"x\"", "<", "<>", "NQ:x", "", "=", "=1", " = ", "X=Y=Z"]),
                      "x" * r.choice([100, 5000, 100000])])
        if k in ("format", "param") and r.random() < 0.7:
            continue
        if k == "prefix" and len(v) > 3 and r.random() < 0.6:
            continue
        sep = "" if k in "DPS" else "="
        a.append("-" + k + sep + v)
    return a


def check(c):
    c.rule = ("mutations of valid declarations, clang AST dumps, custom templates and template directories, random option values, deep nesting and long lines, against ASAN/UBSan "
              "builds; plus coverage-guided in-process fuzzing; non-trivial: every distinct input executed")
    c.assumptions = ["inputs below a few hundred KiB", "a hang is a run that twice exceeds the watchdog"]
    r = c.rng
    tool = Tool(c, "asan")
    # a process of an unprivileged user: option values may name any path
    uid = 65534 if os.getuid() == 0 else None
    try:
        run(["/bin/true"], user=uid)
    except OSError:
        uid = None
    root = c.mkdir("w")
    os.chmod(root, 0o777)
    tpldir = c.path("tpl")
    if tool.run(["-dump-templates=" + tpldir]).rc != 0:
        raise HarnessError("cannot dump templates")
    tpls = {n: open(os.path.join(tpldir, n), "rb").read() for n in sorted(os.listdir(tpldir))}
    d = c.mkdir("ast")
    asts = []
    for i in range(6):
        syms = decl.gen_decls(r, decl.Spec(styles=False, nsyms=(3, 10)))
        a = ast.dump(os.path.join(d, "%d.h" % i), ast.header_text(syms), i % 2 == 0)
        if a:
            # only the tail: the head is always the same builtin types
            lines = a.splitlines(True)
            asts.append(b"".join(lines[:1] + lines[-60:]))
    cases = []
    n = c.n(1500, 14000)
    for i in range(n):
        k = r.choice(["decl", "decl", "decl", "ast", "template", "template", "tpldir", "options", "options", "deep", "noise"])
        fmt = r.choice(["c", "c++", "minimal", "minimal-c++", "plugin"])
        args = ["-param=" + r.choice(["read", "skip", "create"])] if r.random() < 0.7 else []
        files = {}
        if r.random() < 0.3:
            args.append("-line")
        syms = decl.gen_decls(r, decl.Spec(named=r.random() < 0.6, nsyms=(1, 8)))
        data = decl.layout(r, syms, True, 2)
        out = r.choice([["-print-symbols"], ["-print-symbols"], ["-format=" + fmt], ["-format=" + fmt, "-out=o.h"], ["-format=" + fmt, "-out=o.h", "-separate"]])
        if k == "decl":
            data = mutate(r, data)
        elif k == "ast":
            data = r.choice(asts)
            if r.random() < 0.9:
                data = mutate(r, data)
            args += r.choice([["-ast-all-symbols"], ["-Pvk"], ["-S" + rndtext(r)], []])
        elif k == "template":
            t = b"".join(tpls[r.choice(list(tpls))].splitlines(True)[:r.randint(1, 60)]) if r.random() < 0.5 else b"".join(r.choice(DICT) for _ in range(r.randint(0, 30)))
            files["t.tpl"] = mutate(r, t)
            args += ["-template=t.tpl"]
            out = r.choice([[], ["-out=o.h"]])
            if r.random() < 0.1:
                args.append("-prefix=" + r.choice(["xy", "$1", "", "a-b"]))
        elif k == "tpldir":
            n2 = r.choice(list(tpls))
            files["T/" + n2] = mutate(r, tpls[n2])
            args += ["-templates-path=T"]
            out = ["-format=" + fmt]
        elif k == "options":
            args += option_values(r)
            if r.random() < 0.4:
                out = ["-print-symbols"]
        elif k == "deep":
            m = r.choice([50, 300, 1200])
            data = r.choice([b"int " + b"(" * m + b"vk_x" + b")" * m + b"(void);", b"int vk_x(" + b"int (*" * m + b")", b"int " + b"*" * m * 10 + b" vk_x;", b"int vk_x(" + b"int a," * m + b" int b);",
                             b"struct " + b"{" * m + b"}" * m + b";int vk_y;", b"int vk_x" + b"[1]" * m + b";", b"int " + b"a" * m * 50 + b"(void);", b"/" * m * 10 + b"*", b"(" * m, b")" * m + b"(" * m,
                             b"int vk_x(" + b"void (*)(" * m + b"int" + b")" * m + b");", b"#" + b"\\\n" * m, b"/*" * m, b"%option " + b"\\\n" * m, b"int vk_x(int " + b"(" * m + b"a" + b")" * m + b");",
                             b"".join(b"int vk_%d(int a);" % j for j in range(m))])
        else:
            data = bytes(r.randrange(256) for _ in range(r.choice([1, 3, 20, 300])))
        argv = args + out + ["-"]
        argv = [a.replace("\0", "") for a in argv]
        cases.append(dict(i=i, kind=k, argv=argv, data=data if isinstance(data, bytes) else data.encode(), files=files))

    def one(k):
        w = os.path.join(root, str(k["i"]))
        os.makedirs(w)
        os.chmod(w, 0o777)
        for fn, b in k["files"].items():
            if fn.startswith("T/") and not os.path.isdir(w + "/T"):
                shutil.copytree(tpldir, w + "/T")
            with open(os.path.join(w, fn), "wb") as f:
                f.write(b)
        kw = {}
        res = tool.run(k["argv"], stdin=k["data"], cwd=w, user=uid)
        shutil.rmtree(w, ignore_errors=True)
        return res

    rcs = {}
    for k, res in zip(cases, pmap(one, cases)):
        ident = sha(k["data"] + repr((k["argv"], sorted(k["files"].items()))).encode())
        files = {"input.txt": k["data"], "args.txt": repr(k["argv"]), "stderr.txt": res.err}
        files.update({n.replace("/", "_"): b for n, b in k["files"].items()})
        desc = "%s: %s\n%s" % (k["kind"], [a[:200] for a in k["argv"]], res.text(2500))
        if res.timeout:
            c.violation("hang:" + ident, "does not terminate: " + desc, files)
        elif SAN.search(res.err) or res.rc in (98, 99):
            c.violation("sanitizer:" + ident, "sanitizer report: " + desc, files)
        elif res.rc < 0:
            c.violation("signal:" + ident, "killed by signal %d: %s" % (-res.rc, desc), files)
        elif res.rc not in (0, 1, 2):
            c.violation("status:" + ident, "abnormal exit status: " + desc, files)
        elif res.rc != 0 and not res.err.strip():
            c.violation("silent:" + ident, "failure without a diagnostic: " + desc, files)
        c.case(ident)
        rcs["%s rc=%s" % (k["kind"], res.rc)] = rcs.get("%s rc=%s" % (k["kind"], res.rc), 0) + 1
        if k["i"] % 250 == 7:
            c.sample({"kind": k["kind"], "argv": [a[:80] for a in k["argv"]], "input": repr(k["data"][:120]), "rc": res.rc, "stderr": res.err[:120].decode("utf-8", "replace")})
    c.extra["outcomes"] = rcs
    inprocess(c, r, asts, tpls)


def inprocess(c, r, asts, tpls):
    """coverage-guided fuzzing of main() in process"""
    d = c.mkdir("fuzz")
    src = os.path.join(REPO, "src")
    flags = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-w", "-I" + src, "-DHAVE_PROGRAM_INVOCATION_SHORT_NAME"]
    jobs = [["clang++", "-std=gnu++2b"] + flags + (["-Dmain=gendlopen_main"] if b"main(int" in open(f, "rb").read() else []) + ["-c", f, "-o", os.path.join(d, os.path.basename(f) + ".o")] for f in sorted(glob.glob(src + "/*.cpp"))]
    jobs.append(["clang"] + flags + ["-c", src + "/lex.yy.c", "-o", d + "/lex.o"])
    jobs.append(["clang++", "-std=gnu++2b", "-O0", "-w", "-I" + src, "-c", vtool.templates_cpp(c), "-o", d + "/tpl.o"])
    jobs.append(["clang++", "-std=gnu++2b"] + flags + ["-c", os.path.join(VERIF, "harness", "fuzz_tool.cpp"), "-o", d + "/fuzz.o"])
    rs = pmap(lambda j: run(j, timeout=600), jobs)
    rs.append(run(["clang++", "-fsanitize=fuzzer,address,undefined"] + [j[-1] for j in jobs] + ["-o", d + "/fuzz"], timeout=300))
    if any(x.rc != 0 for x in rs):
        # the in-process target leans on the tool's internal structure: without it the process-level part stands
        c.extra["in_process"] = "not built: " + next(x for x in rs if x.rc != 0).text(500)
        return
    corpus = c.mkdir("corpus")
    def seed(mode, flags, b):
        with open(os.path.join(corpus, sha(bytes([mode, flags]) + b)), "wb") as f:
            f.write(bytes([mode, flags]) + b)
    for i in range(60):
        syms = decl.gen_decls(r, decl.Spec(nsyms=(1, 5), named=i % 2 == 0))
        b = decl.layout(r, syms, True, 2)
        seed(0, r.randrange(256), b)
        seed(4, r.randrange(256), b)
        seed(3, r.randrange(256), b"\0".join(bytes([r.randrange(12)]) + rndtext(r).encode() for _ in range(4)))
    for a in asts:
        for i in range(3):
            seed(1, r.randrange(128), b"".join(a.splitlines(True)[1:][-r.randint(4, 30):]))
    for n, t in tpls.items():
        L = t.splitlines(True)
        for i in range(3):
            p = r.randint(0, max(0, len(L) - 10))
            seed(2, r.randrange(256), b"".join(L[p:p + 25]))
    with open(d + "/dict", "w") as f:
        for w in DICT:
            if 0 < len(w) < 60:
                f.write('"' + "".join("\\x%02x" % x for x in w) + '"\n')
    secs = c.n(25, 420)
    env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1", "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1"}

    def fuzz(j):
        art = c.mkdir("art%d" % j) + "/"
        own = c.mkdir("own%d" % j)
        x = run([d + "/fuzz", own, corpus, "-seed=%d" % (c.seed * 100 + j), "-max_total_time=%d" % secs, "-dict=" + d + "/dict", "-max_len=6000", "-len_control=20", "-timeout=25", "-rss_limit_mb=3000",
                 "-artifact_prefix=" + art, "-print_final_stats=1", "-reload=0"], env=env, timeout=secs + 200, cwd=own)
        return j, x, art

    execs = cov = 0
    for j, x, art in pmap(fuzz, range(NCPU)):
        err = x.err.decode("utf-8", "replace")
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", err)
        execs += int(m.group(1)) if m else 0
        m = re.findall(r"cov: (\d+)", err)
        cov = max(cov, int(m[-1]) if m else 0)
        units = int((re.search(r"stat::new_units_added:\s*(\d+)", err) or [0, 0])[1])
        for u in range(min(units, 100000)):
            c.distinct.add("u%d-%d" % (j, u))
        for a in sorted(glob.glob(art + "*")):
            b = open(a, "rb").read()
            kind = os.path.basename(a).split("-")[0]
            # confirm on a quiet run of its own
            y = run([d + "/fuzz", "-timeout=120", "-rss_limit_mb=3000", a], env=env, timeout=400)
            if kind in ("timeout", "slow", "oom") and y.rc == 0:
                c.count("unconfirmed_slow_units")
                continue
            if y.rc == 0:
                c.inconcl("fuzz artifact does not reproduce: " + kind)
                continue
            top = [l for l in y.err.decode("utf-8", "replace").splitlines() if "ERROR" in l or "runtime error" in l or "VK:" in l or re.search(r"#\d+ .* in (?!__|LLVM|fuzzer)", l)][:8]
            c.violation("fuzz:" + sha(b), "in-process fuzzing: %s\n%s\ninput %r" % (kind, "\n".join(top), b[:400]), {"input.bin": b, "report.txt": y.err})
    if execs == 0:
        c.extra["in_process"] = "no executions"
        return
    c.evaluations += execs
    c.extra.update(in_process_executions=execs, in_process_edges=cov)
