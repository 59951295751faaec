"""T02: -P / -S / -ast-all-symbols select exactly what was asked for."""
import os, re
from vk import ast, decl
from vk.core import pmap, run, sha
from vk.tool import Tool

TECHNIQUE = "runtime monitoring: random declaration sets and selections through the real tool; an independent set model judges the selected symbols, messages and exit status"
LEVEL_NOTE = "exploration: random selections over random declarations, text and real clang AST dumps; the model is a few lines of set arithmetic"

TOKEN = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")


def selection(r, syms):
    """random -P / -S lists around the declared names"""
    names = [s.name for s in syms]
    P, S = [], []
    mode = r.random()
    if mode < 0.12:
        return P, S
    if mode < 0.7:
        for _ in range(r.randint(1, 4)):
            n = r.choice(names)
            k = r.random()
            if k < 0.5:
                P.append(n[:r.randint(1, len(n))])      # a real prefix, sometimes the whole name
            elif k < 0.6:
                P.append(n + r.choice(["_", "x", "1"]))   # longer than the name
            elif k < 0.7:
                P.append(n[1:] or n)                      # inner part only
            elif k < 0.8:
                P.append(n[:4].swapcase())
            else:
                P.append(r.choice(["vk_", "_vk", "VK", "zz", "V", "v"]))
    if mode >= 0.4:
        for _ in range(r.choice([1, 1, 2, 3, 6])):
            n = r.choice(names)
            k = r.random()
            if k < 0.8:
                S.append(n)
            elif k < 0.84:
                S.append(n[:-1] or n)
            elif k < 0.88:
                S.append(n + r.choice(["_", "2", "A"]))
            elif k < 0.92:
                S.append(n.swapcase())
            elif k < 0.95:
                S.append(n[1:] or n)
            else:
                S.append("missing_%d" % r.randrange(10))
        if r.random() < 0.2:
            S.append(S[0])
        if r.random() < 0.1:
            S = list(names)
            r.shuffle(S)
    S = [s for s in S if s and not s.startswith("-")]
    P = [p for p in P if p and not p.startswith("-")]
    return P, S


def model(names, P, S, is_ast, everything):
    """-> (ok, selected set, missing set)"""
    if is_ast and everything:
        return (bool(names), set(names), set())
    if not P and not S:
        return (not is_ast, set(names), set())
    sel = {n for n in names if n in S or any(n.startswith(p) for p in P)}
    missing = {s for s in S if s not in names}
    return (not missing and bool(sel), sel, missing)


def sel_args(r, P, S, everything):
    parts = []
    for p in P:
        parts.append(r.choice([["-P" + p], ["-P", p], ["--P", p]][:2]))
    for s in S:
        parts.append(r.choice([["-S" + s], ["-S", s]]))
    if everything:
        parts.append([r.choice(["-", "--"]) + "ast-all-symbols"])
    r.shuffle(parts)
    return [a for p in parts for a in p]


def check(c):
    c.rule = ("random declarations with related names (prefixes, suffixes, case variants of each other) x random -P/-S lists (present, absent, "
              "partial, repeated names) x text / clang AST dump x print-symbols / all formats; non-trivial: at least one prefix or name given")
    c.assumptions = ["clang 18 prints the AST dumps", "order of selected symbols is not part of this property (T08/T10 fix it)"]
    tool = Tool(c)
    r = c.rng
    d = c.mkdir("ast")
    cases = []
    for i in range(c.n(1400, 12000)):
        is_ast = r.random() < 0.35
        spec = decl.Spec(named=True, nsyms=(1, 14), styles=not is_ast, tagged=not is_ast)
        syms = decl.gen_decls(r, spec)
        # derive names from each other so that prefixes and names nearly collide
        used = {s.name for s in syms}
        for s in syms:
            if r.random() < 0.5:
                n = r.choice(syms).name + r.choice(["_", "2", "X", "_init"])
                if r.random() < 0.2:
                    n = r.choice(syms).name.swapcase()
                if r.random() < 0.15:
                    n = "x" + r.choice(syms).name
                if n not in used and not n[0].isdigit():
                    used.add(n)
                    s.name = n
        P, S = selection(r, syms)
        everything = r.random() < (0.2 if is_ast else 0.05)
        rep = {j for j in range(len(syms)) if is_ast and r.random() < 0.1}
        fmt = r.choice(["print"] * 5 + ["c", "c++", "minimal", "minimal-c++", "plugin"])
        cases.append(dict(i=i, ast=is_ast, syms=syms, P=P, S=S, all=everything, fmt=fmt,
                          text=None if is_ast else decl.layout(r, syms, True, r.choice([0, 0, 2])), rep=rep,
                          args=sel_args(r, P, S, everything), out=r.random() < 0.5))

    def one(k):
        data = k["text"]
        if k["ast"]:
            data = ast.dump(os.path.join(d, "%d.h" % k["i"]), ast.header_text(k["syms"], k["rep"]), k["i"] % 2 == 0)
            if data is None:
                return None
        elif isinstance(data, str):
            data = data.encode()
        k["data"] = data
        w = os.path.join(d, "w%d" % k["i"])
        args = ["-"] + k["args"]
        if k["fmt"] == "print":
            return tool.run(args + ["-print-symbols"], stdin=data)
        args += ["-format=" + k["fmt"]]
        if k["out"]:
            os.makedirs(w)
            res = tool.run(args + ["-out=" + w + "/o.h"], stdin=data)
            try:
                res.out = open(w + "/o.h", "rb").read()
            except OSError:
                pass
            return res
        return tool.run(args, stdin=data)

    for k, res in zip(cases, pmap(one, cases)):
        if res is None:
            c.count("clang_rejected")
            continue
        if res.timeout:
            c.inconcl("timeout")
            continue
        names = [s.name for s in k["syms"]]
        ok, sel, missing = model(names, k["P"], k["S"], k["ast"], k["all"])
        ident = sha(k["data"] + repr(k["args"]).encode())
        desc = "declared %s\nargs %s %s\nmodel: ok=%s selected=%s missing=%s" % (names, k["args"], "AST" if k["ast"] else "text", ok, sorted(sel), sorted(missing))
        files = {"input.txt": k["data"], "args.txt": repr(k["args"] + ["format " + k["fmt"]]), "output.txt": res.out, "stderr.txt": res.err}
        if (res.rc == 0) != ok:
            c.violation("status:" + ident, desc + "\nexit status " + str(res.rc) + "\n" + res.text(400), files)
            continue
        if not ok:
            if res.rc != 1 or not res.err.strip():
                c.violation("diag:" + ident, desc + "\nno proper failure\n" + res.text(400), files)
            err_words = set(TOKEN.findall(res.err.decode("utf-8", "replace"))) | set(res.err.decode("utf-8", "replace").split())
            if missing - err_words:
                c.violation("missing:" + ident, desc + "\nnot named in the message: %s\n%s" % (sorted(missing - err_words), res.text(400)), files)
            # names that are declared are not missing
            if missing:
                wrong = {n for n in set(k["S"]) & set(names) if n in err_words and n not in missing and n not in ("file", "the", "not")}
                if wrong:
                    c.violation("falsemissing:" + ident, desc + "\nreported missing though declared: %s\n%s" % (sorted(wrong), res.text(400)), files)
            c.count("refused_cases")
            c.case(ident, bool(k["P"] or k["S"]))
            continue
        if k["fmt"] == "print":
            p = decl.parse_print_symbols(res.out)
            got = [str(decl.line_symbol(l)) for l in p[1]] if p else None
            if got is None or sorted(got) != sorted(sel) or p[2] != len(sel):
                c.violation("selected:" + ident, desc + "\nselected by the tool: %s" % got, files)
        else:
            text = res.out.decode("utf-8", "replace")
            toks = set(TOKEN.findall(text))
            lost = {n for n in sel if n not in toks}
            extra = {n for n in set(names) - sel if toks & {n, "GDO_PTR_" + n, "GDO_LOAD_" + n, "gdo_" + n + "__t"}}
            # each once: the alias / pointer member is declared exactly once
            dup = []
            for n in sel:
                if k["fmt"] in ("c", "c++", "minimal"):
                    m = re.findall(r"^[ \t]*#[ \t]*define[ \t]+%s[ \t]" % re.escape(n), text, re.M)
                    if len(set(m)) == 0:
                        lost.add(n)
            if lost or extra or dup:
                c.violation("generated:" + ident, desc + "\nformat %s: lost %s, not selected but present %s" % (k["fmt"], sorted(lost), sorted(extra)), files)
            c.count("generated_outputs")
        c.case(ident, bool(k["P"] or k["S"] or k["all"]))
        c.count("ast_cases" if k["ast"] else "text_cases")
        if k["i"] % 150 == 3:
            c.sample(desc)
