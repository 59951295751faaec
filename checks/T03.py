"""T03: a Clang AST dump gives the same symbols and types as the header it came from."""
import os, re
from vk import ast, decl, typeoracle
from vk.core import HarnessError, pmap, sha
from vk.tool import Tool

TECHNIQUE = "runtime monitoring: real clang AST dumps of random headers through the real tool, symbols and types judged by a C++ compiler against an independent model"
LEVEL_NOTE = "exploration: random headers; dumps come from the installed clang 18 only"

ATTRS = ["", "", "", "__attribute__((visibility(\"default\")))", "__attribute__((deprecated(\"don't 'use' it (*)\")))",
         "__attribute__((annotate(\"FunctionDecl 0x1 'x'\")))", "__attribute__((cold))", "__asm__(\"other_name\")"]
# part of what clang prints as the function's type, or not
FATTRS = ["__attribute__((noreturn))", "__attribute__((noreturn, cold))", "__attribute__((nothrow, pure))", "__attribute__((warn_unused_result))", "__attribute__((nonnull))", "_Noreturn"]
NOISE = ["struct nz%d { int (*cb)(int, ...); struct { int FunctionDecl; } in; const char *VarDecl[3]; };",
         "enum nz%d { nz%d_FunctionDecl, nz%d_VarDecl = 3 };", "typedef int (*nz%d)(const char *, ...);", "typedef struct nz%d_ nz%d;",
         "union nz%d { int a; float b; };", "typedef int nz%d[4];", "/** doc comment int f(void); */",
         "typedef void nz%d(int a, int b);", "struct nz%d;", "_Static_assert(1, \"FunctionDecl 0x1 'int'\");", "#pragma pack(1)"]


P, A, F = decl.Ptr, decl.Arr, decl.Fn


def declarator(r, depth=0):
    """a type with a parenthesised declarator: pointers to pointers to functions, to arrays, qualified pointers, nested"""
    f = lambda: decl.gen_fn(r, 1 + depth, r.random() < 0.5, 3)
    quals = lambda: r.choice([(), (), ("const",), ("volatile",), ("const", "volatile")])
    k = r.randrange(6)
    if k == 0:
        return P(P(f(), quals()), quals())
    if k == 1:
        return P(f(), r.choice([("const",), ("volatile",)]))
    if k == 2:
        return P(A(decl.gen_scalar(r), r.choice([1, 3, 7])), quals())
    if k == 3:
        return P(A(A(decl.gen_scalar(r), 2), r.choice([1, 3])))
    if k == 4:
        g = f()
        g.ret = declarator(r, depth + 1) if depth < 2 else P(f())
        while isinstance(g.ret, P) and g.ret.quals:
            g.ret = P(g.ret.to)
        return P(g, quals())
    return P(P(P(f())))


def complicate(r, s):
    """give a symbol a type that only C's full declarator syntax can spell"""
    if s.is_func:
        f = s.type
        for i, (t, n) in enumerate(f.params):
            if r.random() < 0.4:
                f.params[i] = (declarator(r), n)
    else:
        t = declarator(r)
        while r.random() < 0.3:
            t = A(t, r.choice([1, 2, 5]))
        if decl.decl(t, "").startswith(("struct", "union", "enum")):
            return
        s.type = t


POISON = ["void (*%s(int a, void (*cb)(int)))(int);", "int (*%s(void))[3];", "extern struct { int a; } %s;", "extern enum { %s_A } %s;",
          "extern union { int a; float b; } *%s;", "int (*(*%s(int))(char))(long);"]


def header(r, syms, rep):
    o = [decl.PRELUDE]
    again = []
    for i, s in enumerate(syms):
        while r.random() < 0.4:
            o.append(r.choice(NOISE).replace("%d", str(r.randrange(10 ** 8))))
        a = r.choice(FATTRS) if s.is_func and r.random() < 0.15 else r.choice(ATTRS)
        if a.startswith("__asm__"):
            a = '__asm__("%s_%d")' % (s.name, i)
        if s.is_func and s.type.params and r.random() < 0.12:
            # declared through a typedef'd function type
            o.append("typedef " + decl.decl(s.type, "ft_" + s.name) + ";")
            o.append(r.choice(["extern ", ""]) + "ft_" + s.name + " " + s.name + ";")
            continue
        pre = ""
        if a == "_Noreturn":
            a, pre = "", a + " "
        o.append(pre + r.choice(["extern ", "extern ", "" if s.is_func else "extern "]) + s.text(True, r.random() < 0.3) + (" " + a if a else "") + ";")
        if i in rep:
            late = [s]
            while r.random() < 0.5:
                late.append(s)
            for q in late:
                # right behind, or anywhere later
                if r.random() < 0.4:
                    o.append("extern " + q.text(r.random() < 0.5, False) + ";")
                else:
                    again.append((r.randrange(i, len(syms)), q))
        for at, q in [e for e in again if e[0] == i]:
            o.append("extern " + q.text(r.random() < 0.5, False) + ";")
    return "\n".join(o) + "\n"


def check(c):
    c.rule = ("random C headers (functions, variadics, callbacks, objects, arrays, function pointers, qualifiers, restrict, attributes, asm labels, "
              "nested records, redeclarations) dumped by clang, with/without colour, CRLF, BOM, x selection mode x -param mode; non-trivial: "
              "every selected symbol's type compared by the compiler")
    c.assumptions = ["the dump is what clang 18 prints with -Xclang -ast-dump",
                     "functions returning function or array pointers by their own declarator, and unnamed types, must be rejected when selected (the tool supports no such output)",
                     "out of domain: static functions and objects"]
    tool = Tool(c)
    r = c.rng
    d = c.mkdir("ast")
    cases = []
    for i in range(c.n(900, 8000)):
        spec = decl.Spec(named=r.random() < 0.7, styles=False, nsyms=(1, 14))
        syms = decl.gen_decls(r, spec)
        for s in syms:
            if r.random() < 0.3:
                decl.add_restrict(r, s.type)
        if r.random() < 0.3:
            for s in syms:
                if r.random() < 0.4:
                    complicate(r, s)
        rep = {j for j in range(len(syms)) if r.random() < 0.15}
        sel = r.choice(["all", "all", "P", "S"])
        names = [s.name for s in syms]
        if sel == "all":
            want, args = names, ["-ast-all-symbols"]
        elif sel == "P":
            p = r.choice(names)[:r.randint(1, 4)]
            want, args = [n for n in names if n.startswith(p)], ["-P" + p]
        else:
            pick = [n for n in names if r.random() < 0.5] or names[:1]
            want, args = pick, ["-S" + n for n in pick]
        text = header(r, syms, rep)
        poison = None
        if r.random() < 0.15:
            p = r.choice(["", "", names[0][:2]]) + "zzq%d" % i
            t = r.choice(POISON).replace("%s", p)
            text = text + t + "\n" if r.random() < 0.7 else decl.PRELUDE + t + "\n" + text.replace(decl.PRELUDE, "", 1)
            hit = sel == "all" or (sel == "P" and p.startswith(args[0][2:]))
            if sel == "S" and r.random() < 0.5:
                args, hit = args + ["-S" + p], True
            poison = p if hit else None
            c.count("unsupported_selected" if hit else "unsupported_not_selected")
        cases.append(dict(i=i, poison=poison, syms=[s for s in syms if s.name in want], args=args + ["-param=" + r.choice(["read", "skip", "create"])],
                          color=r.random() < 0.5, crlf=r.random() < 0.3, bom=r.random() < 0.3, text=text))

    def one(k):
        data = ast.dump(os.path.join(d, "%d.h" % k["i"]), k["text"], k["color"])
        os.unlink(os.path.join(d, "%d.h" % k["i"]))
        if data is None:
            return None
        if k["crlf"]:
            data = data.replace(b"\n", b"\r\n")
        if k["bom"]:
            data = b"\xef\xbb\xbf" + data
        k["data"] = data
        return tool.run(["-"] + k["args"] + ["-print-symbols"], stdin=data)

    good = []
    for k, res in zip(cases, pmap(one, cases)):
        if res is None:
            c.count("clang_rejected")
            continue
        if res.timeout:
            c.inconcl("timeout")
            continue
        ident = sha(k["text"] + repr(k["args"]))
        files = {"header.h": k["text"], "dump.txt": k["data"], "args.txt": " ".join(k["args"]), "output.txt": res.out, "stderr.txt": res.err}
        if k["poison"]:
            # the name may be missing only from a message about an earlier problem: there is none
            if res.rc != 1 or k["poison"].encode() not in res.err:
                c.violation("unsupported:" + ident, "declaration of %s has an unsupported type, but was not rejected (%s)\n%s"
                            % (k["poison"], k["args"], res.text()), files)
            else:
                c.case(ident)
            continue
        if res.rc != 0:
            c.violation("rejected:" + ident, "AST dump rejected (%s)\n%s" % (k["args"], res.text()), files)
            continue
        p = decl.parse_print_symbols(res.out)
        syms = k["syms"]
        want = [s.name for s in syms if not s.is_func] + [s.name for s in syms if s.is_func]
        got = [str(decl.line_symbol(l)) for l in p[1]] if p else None
        if got != want or p[2] != len(want):
            c.violation("symbols:" + ident, "symbols differ (%s): declared %s\nreported %s\n%s" % (k["args"], want, got, res.text(600)), files)
            continue
        good.append((k, ident, p[0], p[1], files))
    if len(good) < len(cases) // 2:
        raise HarnessError("clang rejected most generated headers")
    printed = [("c%d" % g[0]["i"], g[0]["syms"], g[2], g[3]) for g in good]
    bad = typeoracle.compile_batches(c, printed, "ast")
    for cid, msgs in typeoracle.closed_lists(c, printed, "ast").items():
        bad.setdefault(cid, msgs)
    for k, ident, tds, protos, files in good:
        cid = "c%d" % k["i"]
        if cid in bad:
            c.violation("types:" + ident, "types differ: %s" % "; ".join(bad[cid][:6]), files)
            continue
        c.case(ident)
        c.count("with_colour", k["color"]); c.count("with_crlf", k["crlf"]); c.count("with_bom", k["bom"])
        if k["i"] % 100 == 0:
            c.sample({"args": k["args"], "declared": [s.canon() for s in k["syms"][:4]], "printed": protos[:4]})
