"""T04: rejected requests fail with a diagnostic and touch nothing."""
import os, re, shutil
from vk import ast, decl, fsutil
from vk.core import HarnessError, pmap, sha
from vk.tool import Tool

TECHNIQUE = "runtime monitoring: certainly-unacceptable requests through the real tool, directory snapshots before and after, exit status and both output streams checked"
LEVEL_NOTE = "exploration: every rejection reason of the documentation crossed with output states and options; each reason is made certain by construction"

VALID = b"int vk_one(int a, const char *b);\nvoid vk_two(void);\nextern int vk_obj;\n"
HEADER_LIKE = re.compile(rb"^\s*#\s*(define|include|ifndef|pragma|ifdef)|Do not edit|GDO_|gdo_|/\* prototypes|matches  \*\*\*", re.M)

ILLEGAL = [b"@", b"$", b"`", b"?", b"!", b"~", b"%", b"^", b"&", b"+", b"-", b"|", b"\\x", b"<", b">", b":", b'"', b"'", b"{", b"}", b"=", b"\x01", b"\x7f", b"\x80", b"\xff", b"\xc3\xa9", b"/ "]


def broken_decls(r):
    """-> (reason, input bytes, extra args): never acceptable"""
    spec = decl.Spec(named=True, nsyms=(1, 6), styles=False)
    syms = decl.gen_decls(r, spec)
    good = decl.plain_text(syms)
    k = r.randrange(14)
    pos = r.randint(0, len(syms))
    def put(bad):
        return ("".join(s.text() + ";\n" for s in syms[:pos]) + bad + "\n" + "".join(s.text() + ";\n" for s in syms[pos:])).encode()
    if k == 0:
        ch = r.choice(ILLEGAL)
        # inside a declaration, between two tokens
        b = b"int vk_ill (int a" + b", int b" * r.randint(0, 3)
        cut = r.choice([i for i in range(len(b) + 1) if i == 0 or b[i - 1:i] in b" (,"][1:])
        b = b[:cut] + b" " + ch + b" " + b[cut:] + b");\n"
        pre = "".join(s.text() + ";\n" for s in syms[:pos]).encode()
        return "illegal character", pre + b + good.encode()[:0] + "".join(s.text() + ";\n" for s in syms[pos:]).encode(), []
    if k == 1:
        bad = r.choice(["int vk_p(int a;", "int vk_p int a);", "int vk_p(int a));", "int vk_p(int a, (int b);", "int (vk_p(int a);", "int vk_p(int a)(int b;", "int vk_p[3;", "int vk_p 3];",
                        "vk_alone;", "int vk_a, vk_b;", "int *vk_a, vk_b(int x);", "(int) vk_z;", "int (vk_p)(int a) (int b);", "int vk_q(int a) const2;",
                        "int;", "(int a);", "*;", ",;", "();", "[];", "int vk_c(int a, , int b);", "int vk_c(, int a);", "int vk_c(int a,);", "int *;", "int vk_e[];x;",
                        "int vk_x[3]];", "int vk_x[[3];", "int vk_f(int a[[3]);", "int vk_f(int a[3]]);", "int (*vk_f)(int a));", "int (*vk_f)((int a);", "int (*vk_f)(int) vk_g(int);",
                        "int (*vk_f)(int)(int);", "int vk_f(int a[3), int b(]);", "int (*vk_f)(int [3)];", "int (*vk_f)(int) vk_attr;", "* vk_s;", "int vk_t(int a) = 0;", "int vk_u = 3;", "int vk_v() { return 1; }", "int vk_w[3] = {1,2,3};", "int vk_y : 3;"])
        if bad == "int vk_e[];x;":
            bad = "x;"
        if r.random() < 0.25:
            # more than one declarator
            forms = ["vk_%d", "*vk_%d", "vk_%d[3]", "vk_%d[]", "vk_%d(int a)", "vk_%d(int a, char *b)", "*vk_%d(void)", "(*vk_%d)(int a)", "(*vk_%d)(void)", "(*vk_%d)[4]", "(vk_%d)(int a)", "*const vk_%d", "vk_%d()"]
            bad = r.choice(["int ", "extern char ", "const unsigned long ", "void *", "const struct vk_pair *", "vk_t "]) + ", ".join(r.choice(forms) % i for i in range(r.choice([2, 2, 2, 3, 4]))) + ";"
        return "unparsable: " + bad, put(bad), []
    if k == 2:
        s = r.choice(syms)
        again = s.text(True) if r.random() < 0.5 else r.choice(["int %s(void)", "extern char *%s", "double %s[3]"]) % s.name
        return "duplicate", put(again + ";"), []
    if k == 3:
        return "nothing declared", r.choice([b"", b"\n", b"/* nothing */\n", b"// x\n", b"#include <stdio.h>\n", b"struct s { int a; };\n", b"typedef int x_t;\n",
                                               b"\xef\xbb\xbf", b";", b";;;\n", b"enum e { A };\nunion u;\n", b"%option no-date\n", b"#define X \\\n int vk_x(void);\n", b"/* int vk_x(void); */",
                                               b"extern;", b"/* int vk_x(void);"]), []
    if k == 4:
        return "missing -S symbol", good.encode(), ["-S" + syms[0].name, r.choice(["-Svk_not_there", "-S" + syms[0].name + "q9", "-S" + syms[-1].name.swapcase() + "zz"])]
    if k == 5:
        return "nothing selected", good.encode(), ["-P" + r.choice(["zzz", "9", syms[0].name + "q9q"])]
    if k == 6:
        # -param=read with a parameter whose name cannot be told
        bad = r.choice(["int vk_r(int);", "int vk_r(int a, char);", "void vk_r(void *);", "char *vk_r(const char *, int);", "int vk_r(int (*)(int));", "int vk_r(int[]);", "int vk_r(struct vk_pair *);"])
        return "unnamed parameter in read mode: " + bad, put(bad), r.choice([[], ["-param=read"]])
    if k == 7:
        syms = decl.gen_decls(r, decl.Spec(named=False, nsyms=(1, 4), styles=False))
        bad = r.choice(["%option no-such", "%option format=bogus", "%option param=maybe", "%option D=", "%option library=", "%option format=", "%option include=",
                        "%option Format=c", "%option out=x.h", "%option force", "%option separate", "%option no-dat", "%option no-dateX", "%option line=1", "%option prefix=", "%option param="])
        opts = ["-param=skip"]
        t = decl.plain_text(syms)
        return "bad option line: " + bad, (bad + "\n" + t if r.random() < 0.5 else t + bad + "\n").encode(), opts
    if k == 8:
        h = b"TranslationUnitDecl 0x1 <<invalid sloc>>\n"
        body = b"|-FunctionDecl 0x2 <a.h:1:1> col:5 vk_f 'int (int)'\n| `-ParmVarDecl 0x3 <col:1> col:5 a 'int'\n"
        return r.choice([("AST: no selection", h + body, []), ("AST: missing symbol", h + body, ["-Svk_f", "-Svk_g"]), ("AST: nothing found", h, ["-ast-all-symbols"]),
                         ("AST: nothing selected", h + body, ["-Pzz"]), ("AST: not on line 1", VALID + h + body, ["-ast-all-symbols"]), ("AST: not on line 1", b"\n" + h + body, ["-Svk_f"])])
    if k == 9:
        return "-format value", VALID, [r.choice(["-format=", "-format="]) + r.choice(["bogus", "c+", "C+++", "c99", "minimal-", "plugins", "cxxx", " c", "minimalc"])]
    if k == 10:
        return "-param value", VALID, ["-param=" + r.choice(["bogus", "reads", "none", "skip ", "creat"])]
    if k == 11:
        if r.random() < 0.6:
            # a known name with more or fewer letters (single-letter options take anything behind them)
            known = ("ast-all-symbols", "dump-templates", "format", "force", "full-help", "help", "include", "ignore-options", "library", "line", "no-date", "no-pragma-once", "out", "prefix", "param", "print-symbols",
                     "separate", "template", "templates-path", "version")
            n = r.choice(known)
            k = r.randint(0, 3)
            v = r.choice(["", "=c", "=read", "c", ":c", ":read", "c++", " c", "=x=c"])
            bad = [n + r.choice("axX_-.:0 ") + v, n[:-1] + (v if v[:1] in ("=", ":", "") else "=" + v), n[0] + n[2:] + v, r.choice([n.upper(), n.title(), "no-" + n, n.replace("-", "_") + "_"])][k]
            if bad[0] not in "DPS?" and bad not in known and not any(bad.startswith(q + "=") for q in known):
                return "unknown option", VALID, [r.choice(["-", "--"]) + bad] + (["c"] if r.random() < 0.3 else [])
        return "unknown option", VALID, [r.choice(["-bogus", "--bogus", "-forced", "-lin", "-o=x", "-Format=c", "-nodate", "-no-date=1", "--no-pragma", "-line=1", "-x", "---force", "-separate=yes"])]
    if k == 12:
        return "missing argument", VALID, [r.choice(["-D", "-P", "-S", "-format", "-include", "-library", "-prefix", "-param", "-template", "-templates-path"])]
    return "illegal character", b"int vk_ill(int a) " + r.choice(ILLEGAL) + b";\n" + good.encode(), []


def check(c):
    c.rule = ("rejection reason (illegal character, unparsable, duplicate, nothing declared, missing selection, unknown option/value, missing argument, bad %option line, "
              "unreadable input/template, AST errors) x random surroundings x output path state x -force/-separate/format/template/print-symbols; non-trivial: request was refused and the directory compared")
    c.assumptions = ["refusals that depend on generated output (placeholder mixing in a custom template, write errors) belong to T07/T10"]
    tool = Tool(c)
    r = c.rng
    root = c.mkdir("w")
    tpl = c.path("tpl")
    if tool.run(["-dump-templates=" + tpl]).rc != 0:
        raise HarnessError("cannot dump templates")
    cases = []
    for i in range(c.n(1500, 15000)):
        reason, data, args = broken_decls(r)
        k = dict(i=i, reason=reason, data=data, args=list(args), input="-" if r.random() < 0.5 else "in.txt")
        # "-x ARG" forms must stay last so the argument is really missing
        tail = k["args"] if reason == "missing argument" else []
        head = [] if tail else k["args"]
        m = r.random()
        if m < 0.08 and not tail:
            k["input"] = r.choice(["nothere.txt", "dir", "dangling", "file.txt/x", None, "nodir/in.txt", ""])
            k["reason"], k["data"], head = "unreadable input " + str(k["input"]), VALID, []
        elif m < 0.12 and not tail:
            k["reason"], k["data"], head = "missing template", VALID, ["-template=" + r.choice(["nothere.tpl", "nodir/x", "dangling"])]
        elif m < 0.16 and not tail:
            k["reason"], k["data"], head = "missing templates path", VALID, ["-templates-path=" + r.choice(["nothere", "emptydir", "file.txt"])]
        elif m < 0.20 and not tail:
            k["reason"], k["data"], head = "unreadable custom template", VALID, ["-template=" + r.choice(["dir", "emptydir"])]
        elif m < 0.24 and not tail:
            k["reason"], k["data"], head = "broken templates path", VALID, ["-templates-path=tpl"]
            k["breaktpl"] = (r.choice(["license.h", "filename_macros.h"]), r.choice(["gone", "dir"]))
        k["opts"] = []
        if r.random() < 0.75:
            k["opts"].append("-out=" + r.choice(["out.h", "out.h", "exists.h", "link.h", "dangling.h", "sub/out.h", "exists"]))
        if r.random() < 0.6:
            k["opts"].append("-force")
        if r.random() < 0.25:
            k["opts"].append("-separate")
        if r.random() < 0.5 and not reason.startswith("-format") :
            k["opts"].append("-format=" + r.choice(["c", "c++", "minimal", "minimal-c++", "plugin"]))
        if r.random() < 0.15 and k["data"] is not VALID:
            k["opts"].append("-template=good.tpl")
        elif r.random() < 0.1 and k["data"] is not VALID:
            k["opts"].append("-print-symbols")
        if r.random() < 0.2:
            k["opts"].append("-line")
        pos = [] if k["input"] is None else [k["input"]]
        argv = k["opts"] + head + pos
        if reason not in ("missing argument",):
            # options may come in any order
            r.shuffle(argv)
        k["argv"] = argv + tail
        cases.append(k)

    def prepare(w, k):
        os.makedirs(w + "/dir"); os.makedirs(w + "/emptydir"); os.makedirs(w + "/sub")
        for n, t in (("in.txt", k["data"]), ("exists.h", b"old header\n"), ("exists.c", b"old body\n"), ("exists", b"old\n"), ("exists.hpp", b"old\n"), ("target", b"target\n"),
                     ("file.txt", b"x"), ("good.tpl", b"// %%symbol%%\n")):
            with open(os.path.join(w, n), "wb") as f:
                f.write(t)
        if "breaktpl" in k:
            shutil.copytree(tpl, w + "/tpl")
            n, how = k["breaktpl"]
            os.unlink(w + "/tpl/" + n)
            if how == "dir":
                os.mkdir(w + "/tpl/" + n)
        os.symlink("target", w + "/link.h")
        os.symlink("nowhere", w + "/dangling.h")
        os.symlink("nowhere", w + "/dangling")

    def one(k):
        w = os.path.join(root, str(k["i"]))
        os.makedirs(w)
        prepare(w, k)
        a = fsutil.snapshot(w)
        res = tool.run(k["argv"], stdin=k["data"], cwd=w)
        b = fsutil.snapshot(w)
        return res, fsutil.diff(a, b)

    per = {}
    for k, (res, d) in zip(cases, pmap(one, cases)):
        ident = sha(k["data"] + repr(k["argv"]).encode())
        files = {"input.txt": k["data"], "args.txt": repr(k["argv"]), "stdout.txt": res.out, "stderr.txt": res.err}
        head = "%s: %s" % (k["reason"], k["argv"])
        if res.timeout:
            c.inconcl("timeout " + head)
            continue
        if res.rc == 0:
            c.violation("accepted:" + ident, "unacceptable request accepted: %s\ninput: %r\n%s" % (head, k["data"][:600], res.text(300)), files)
        elif res.rc < 0 or res.rc > 2:
            c.violation("status:" + ident, "not a failure exit: %s\n%s" % (head, res.text()), files)
        if res.rc != 0 and not res.err.strip():
            c.violation("silent:" + ident, "no diagnostic: %s\n%s" % (head, res.text()), files)
        if d:
            c.violation("touched:" + ident, "files touched: %s\n%s\n%s" % (head, "\n".join(d), res.text(300)), files)
        if res.rc != 0 and HEADER_LIKE.search(res.out):
            c.violation("stdout:" + ident, "header printed by a failed run: %s\n%s" % (head, res.text(600)), files)
        c.case(ident)
        key = k["reason"].split(":")[0]
        per[key] = per.get(key, 0) + 1
        if k["i"] % 200 == 0:
            c.sample({"reason": k["reason"], "argv": k["argv"], "stderr": res.err[:200].decode("utf-8", "replace")})
    c.extra["cases_per_reason"] = per
