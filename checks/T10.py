"""T10: custom templates are expanded exactly as documented."""
import os, re
from vk import ast, decl
from vk.core import HarnessError, pmap, sha
from vk.tool import Tool

TECHNIQUE = "runtime monitoring: random templates through the real tool, output bytes judged by an independent reference expander"
LEVEL_NOTE = "exploration: random templates (placeholders, joined lines, markers, CRLF, raw bytes, prefixes) x random declarations, text and AST input; types come from -print-symbols (judged by T01/T03)"

FUNC = ["return", "type", "func_symbol", "func_symbol_pad", "args", "param_names"]
OBJ = ["obj_type", "obj_symbol", "obj_symbol_pad"]
SYM = ["sym_type", "symbol"]
ALL = FUNC + OBJ + SYM
PH = re.compile("%%(" + "|".join(ALL) + ")%%")
PLAIN = ["", " ", "x", "int y;", "  ", "\t", "// text", "/* c */", "#define A \\", "#line 7", "#", "%", "%d", "%%", "%%foo%%", "%%type%", "%type%%", "%%Type%%", "%%TYPE%%", "%%obj_%%", "%%args", "@x", "a@b", "@ ", "%PARAM_SKIP_END%x", " %PARAM_SKIP_END%",
         "%PARAM_SKIP_BEGIN%", "%param_skip_end%", "x%PARAM_SKIP_USE_BEGIN%", "\\", "$1", "$&", "\\1", "é", "%%%", "%s%n", "{", "}", "\x7f", "\x01"]
PFX = ["gdo_foo", "GDO_FOO", "_gdo_x", "_GDO_X", "gdo", "gdo::", "::gdo", "gdo_", "GDO_", "agdo_b", "MY_GDO_X", "GDO", "gdox", "(gdo)", "gdo,gdo", "gdo_gdo_a", "GDO_GDO", "gdo.gdo", "&gdo_f,", "1gdo_", "xgdo"]


class Data:
    """what -print-symbols says, plus parameter names from the model"""

    def __init__(self, protos, params):
        self.funcs, self.objs = [], []
        for l in protos:
            sym = decl.line_symbol(l)
            body = l[:-1]
            if body.endswith(")") and sym in params:
                i = self.open_paren(body)
                args = body[i + 1:-1]
                typ = body[:i][:-len(sym)]
                self.funcs.append((typ[:-1] if typ.endswith(" ") else typ, sym, args, params[sym]))
            else:
                typ = body[:-len(sym)]
                self.objs.append((typ[:-1] if typ.endswith(" ") else typ, sym))

    @staticmethod
    def open_paren(s):
        d = 0
        for i in range(len(s) - 1, -1, -1):
            d += {")": 1, "(": -1}.get(s[i], 0)
            if d == 0:
                return i
        raise HarnessError("unbalanced: " + s)


def rename(line, pfx):
    """identifier prefixes in template text, before any data is filled in"""
    up = "".join(ch.upper() if ch.isalnum() and ch.isascii() else "_" for ch in pfx)
    lo = "".join(ch.lower() if ch.isalnum() and ch.isascii() else "_" for ch in pfx)

    def one(m):
        w = m.group(0)
        if w == "gdo":
            return lo
        for a, b in (("GDO_", up + "_"), ("gdo_", lo + "_")):
            if w.startswith(a):
                return b + w[4:]
            if w.startswith("_" + a):
                return "_" + b + w[5:]
        return w
    return re.sub(r"[A-Za-z0-9_]+", one, line)


def fill(text, values, pointer_keys, void):
    """left to right, one pass"""
    out, i = [], 0
    for m in PH.finditer(text):
        if m.start() < i:
            continue
        out.append(text[i:m.start()])
        k, i = m.group(1), m.end()
        if k == "return":
            if void:
                if text[i:i + 1] == " ":
                    i += 1
            else:
                out.append("return")
            continue
        out.append(values[k])
        if k in pointer_keys and values[k].endswith("*") and text[i:i + 1] == " ":
            i += 1
    out.append(text[i:])
    return "".join(out)


class Mixed(Exception):
    pass


def expand(tpl, data, skip, pfx):
    """reference expander; bytes are handled as latin-1 text"""
    phys = tpl.split("\n")
    entries, cur = [], None
    for k, l in enumerate(phys):
        last = k == len(phys) - 1
        line = (cur if cur is not None else "") + l
        if not last and line.endswith("@"):
            cur = line[:-1] + "\n"
        elif not last and line.endswith("@\r"):
            cur = line[:-2] + "\r\n"
        else:
            if last and line.endswith("@"):
                line = line[:-1]
            entries.append(line)
            cur = None
    out, off = [], False
    for e in entries:
        key = e[:-1] if e.endswith("\r") else e
        if key == "%PARAM_SKIP_REMOVE_BEGIN%":
            off = skip
            continue
        if key == "%PARAM_SKIP_USE_BEGIN%":
            off = not skip
            continue
        if key == "%PARAM_SKIP_END%":
            off = False
            continue
        if off:
            continue
        if pfx:
            e = rename(e, pfx)
        kinds = {("f" if m in FUNC else "o" if m in OBJ else "s") for m in PH.findall(e)}
        if len(kinds) > 1:
            raise Mixed(e)
        if not kinds:
            out.append(e)
        elif kinds == {"f"}:
            w = max([len(f[1]) for f in data.funcs] or [0])
            for t, s, a, p in data.funcs:
                out.append(fill(e, {"type": t, "func_symbol": s, "func_symbol_pad": s.ljust(w), "args": a, "param_names": p}, ("type",), t.lower() == "void"))
        elif kinds == {"o"}:
            w = max([len(f[1]) for f in data.objs] or [0])
            for t, s in data.objs:
                out.append(fill(e, {"obj_type": t, "obj_symbol": s, "obj_symbol_pad": s.ljust(w)}, ("obj_type",), False))
        else:
            for t, s, a, p in data.funcs:
                out.append(fill(e, {"sym_type": t + ("" if t.endswith("*") else " ") + "(*)(" + a + ")", "symbol": s}, (), False))
            for t, s in data.objs:
                out.append(fill(e, {"sym_type": t + ("" if t.endswith("*") else " ") + "*", "symbol": s}, (), False))
    return "\n".join(out)


def overlapping(e):
    ms = [m.span(1) for m in re.finditer("(?=(%%(?:" + "|".join(ALL) + ")%%))", e)]
    return any(a[1] > b[0] for a, b in zip(ms, ms[1:]))


def gen_line(r, kind, pfx):
    """text of one physical line with placeholders of one kind (or none)"""
    pool = {"f": FUNC, "o": OBJ, "s": SYM, "": []}[kind]
    parts = []
    for _ in range(r.choice([0, 1, 2, 3, 4, 6])):
        k = r.random()
        if pool and k < 0.55:
            parts.append("%%" + r.choice(pool) + "%%" + r.choice(["", " ", " ", "  ", "(", ";", "\t", ", "]))
        elif k < 0.7:
            parts.append(r.choice(PFX) + r.choice(["", " ", ";"]))
        elif k < 0.75:
            parts.append("".join(chr(r.choice([x for x in range(256) if x not in (10, 13)])) for _ in range(r.randint(1, 6))))
        else:
            parts.append(r.choice(PLAIN) + r.choice(["", " "]))
    if r.random() < 0.01:
        parts.append(r.choice(["x", "ab ", "%%", "%"]) * r.randint(1000, 20000))
    return "".join(parts)


MARK = ["%PARAM_SKIP_REMOVE_BEGIN%", "%PARAM_SKIP_USE_BEGIN%", "%PARAM_SKIP_END%"]


def gen_template(r, pfx, mixed):
    lines, inblock = [], False
    n = r.choice([0, 1, 1, 2, 3, 5, 8, 14, 30])
    for _ in range(n):
        k = r.random()
        if k < 0.12:
            if inblock:
                lines.append(MARK[2])
            else:
                lines.append(r.choice(MARK))
            inblock = lines[-1] != MARK[2]
            continue
        kind = r.choice(["", "", "f", "f", "o", "s"])
        cnt = r.choice([1, 1, 1, 2, 3, 5])
        while True:
            grp = [gen_line(r, kind if r.random() < 0.8 else "", pfx) for _ in range(cnt)]
            # the first line of a group must not be taken for a marker, nothing may end on @ by accident
            grp = [g + " " if g.endswith("@") or g in MARK else g for g in grp]
            e = "\n".join(grp)
            if not overlapping(e) and not overlapping(rename(e, "abc")) and "%%return%%%%return%%" not in e:
                break
        if r.random() < 0.05 and cnt > 1:
            grp[0] += "@"           # a doubled @ joins, too, and leaves one
        lines += [g + "@" for g in grp[:-1]] + [grp[-1]]
    if inblock and r.random() < 0.8:
        lines.append(MARK[2])
    if mixed:
        a, b = r.sample(["f", "o", "s"], 2)
        pa, pb = ["%%" + r.choice({"f": FUNC, "o": OBJ, "s": SYM}[x]) + "%%" for x in (a, b)]
        bad = pa + r.choice([" ", "@\n", " x ", "@\n\n"[:2] + "y "]) + pb
        # only where it is in use
        lines += [MARK[2], bad]
    t = "\n".join(lines)
    k = r.random()
    if k < 0.6:
        t += "\n"
    elif k < 0.7:
        t += "@"
    elif k < 0.75:
        t += "@\n"
    if r.random() < 0.2:
        t = t.replace("\n", "\r\n")
    elif r.random() < 0.1:
        t = "".join(ch if ch != "\n" or r.random() < 0.6 else "\r\n" for ch in t)
    return t


def model_params(syms, mode, isast):
    if isast:
        mode = "create"         # an AST has no parameter names to read or skip
    res = {}
    for s in syms:
        if not s.is_func:
            continue
        if mode == "skip":
            res[s.name] = ""
        elif mode == "create":
            res[s.name] = ", ".join("a%d" % (i + 1) for i in range(len(s.type.params)))
        else:
            res[s.name] = ", ".join(n for _, n in s.type.params)
    return res


def check(c):
    c.rule = "random templates x random declarations x -param mode x prefix x channel (file/stdin template, file/stdout output, text/AST input); mixed-kind templates; non-trivial: template accepted and compared byte by byte"
    c.assumptions = ["symbol data (types, arguments) is what -print-symbols lists", "trailing line breaks at the very end of the output are not compared",
                     "placeholders that share percent signs, `__GDO_' and nested parameter-skip blocks are not generated"]
    tool = Tool(c)
    r = c.rng
    nsets, per = c.n(60, 500), c.n(22, 40)
    sets = []
    for i in range(nsets):
        mode = r.choice(["read", "read", "skip", "create"])
        kinds = r.choice([(True, True)] * 4 + [(True, False), (False, True)])
        isast = r.random() < 0.15
        spec = decl.Spec(named=(mode == "read"), funcs=kinds[0], objects=kinds[1], nsyms=(1, 10))
        if isast:
            spec.styles = False
        syms = decl.gen_decls(r, spec)
        if r.random() < 0.3:
            syms[r.randrange(len(syms))].name += "_gdo_GDO_x" if r.random() < 0.5 else ""
        if len({s.name for s in syms}) != len(syms):
            continue
        extra = ""
        if not isast and kinds[0] and r.random() < 0.3:
            extra = r.choice(["VOID vk9_big(void);\n", "Void vk9_mixed(VOID);\n", "void *vk9_ptr(void);\n", "void_t vk9_voidish(void);\n", "const char *gdo_data(void);\n", "int GDO_DATA(void);\n"])
        if isast:
            data = ast.dump(c.path("h%d.h" % i), ast.header_text(syms), r.random() < 0.3)
            if data is None:
                continue
            data = data if isinstance(data, bytes) else data.encode()
            sel = ["-S" + s.name for s in syms]
        else:
            data, sel = (decl.plain_text(syms) + extra).encode(), []
        params = model_params(syms, mode, isast)
        if extra:
            params[re.search(r"(\w+)\(", extra).group(1)] = ""
        sets.append((i, mode, syms, data, sel, params, isast))
    if not sets:
        raise HarnessError("no declarations")

    # the typedef names of arrays and function pointers depend on the prefix
    prefixes = {s[0]: r.choice(["abc", "My_Lib", "gdo_x", "X"]) for s in sets}

    def listing(s):
        a = tool.run(["-", "-print-symbols", "-param=" + s[1]] + s[4], stdin=s[3])
        b = tool.run(["-", "-print-symbols", "-param=" + s[1], "-prefix=" + prefixes[s[0]]] + s[4], stdin=s[3])
        return a, b

    jobs = []
    for s, (res, res2) in zip(sets, pmap(listing, sets)):
        p = decl.parse_print_symbols(res.out) if res.rc == 0 else None
        p2 = decl.parse_print_symbols(res2.out) if res2.rc == 0 else None
        if p is None or p2 is None:
            c.violation("listing:" + sha(s[3]), "declarations not accepted (%s)\n%s" % (s[4][:3], res.text()), {"input.txt": s[3]})
            continue
        d1, d2 = Data(p[1], s[5]), Data(p2[1], s[5])
        for k in range(per):
            pfx = r.choice([None] * 7 + [prefixes[s[0]]] * 5) if k % 6 == 0 else r.choice([None, None, "GDO", "Gdo"])
            mixed = r.random() < 0.06
            tpl = gen_template(r, pfx, mixed)
            jobs.append((len(jobs), s, d2 if pfx == prefixes[s[0]] else d1, tpl, pfx, r.choice(["file", "file", "stdin"]), r.choice(["stdout", "file", "dash"]), r.choice([[], ["-format=c++"], ["-separate"], ["-format=plugin", "-DX=1", "-include=x.h", "-library=foo", "-no-date"], ["-templates-path=/nonexistent"]])))

    def one(j):
        k, s, d, tpl, pfx, chan, outchan, more = j
        w = c.mkdir("w%d" % k)
        with open(w + "/i", "wb") as f:
            f.write(s[3])
        with open(w + "/t.tpl", "wb") as f:
            f.write(tpl.encode("latin-1"))
        args = ["i", "-param=" + s[1]] + s[4] + more + (["-prefix=" + pfx] if pfx else [])
        args += ["-template=t.tpl"] if chan == "file" else ["-template=-"]
        args += {"stdout": [], "dash": ["-out=-"], "file": ["-out=o.txt"]}[outchan]
        res = tool.run(args, stdin=tpl.encode("latin-1") if chan == "stdin" else b"", cwd=w)
        out = res.out
        if outchan == "file":
            out = open(w + "/o.txt", "rb").read() if os.path.exists(w + "/o.txt") else None
        for f in os.listdir(w):
            os.unlink(os.path.join(w, f))
        os.rmdir(w)
        return args, res, out

    for j, (args, res, out) in zip(jobs, pmap(one, jobs)):
        k, s, d, tpl, pfx, chan, outchan, more = j
        ident = sha(tpl.encode("latin-1") + s[3] + repr(args).encode())
        files = {"input.txt": s[3], "template.tpl": tpl.encode("latin-1"), "args.txt": repr(args), "got.txt": out or b""}
        try:
            want = expand(tpl, d, s[1] == "skip", pfx)
            if not d.funcs and not d.objs:
                raise HarnessError("no data")
        except Mixed:
            if res.rc == 0 or not res.err.strip():
                c.violation("mixed:" + ident, "mixed placeholder kinds not reported: %s\n%s" % (args, res.text(500)), files)
            c.case(ident)
            c.count("mixed_kind_templates")
            continue
        if res.timeout:
            c.inconcl("timeout")
            continue
        if res.rc != 0 or out is None:
            c.violation("rejected:" + ident, "valid template rejected: %s\n%s" % (args, res.text(500)), files)
            continue
        want_b = want.encode("latin-1")
        a, b = out.rstrip(b"\r\n"), want_b.rstrip(b"\r\n")
        if a != b:
            la, lb = a.split(b"\n"), b.split(b"\n")
            df = next(((i + 1, x[:200], y[:200]) for i, (x, y) in enumerate(zip(la, lb)) if x != y), ("lines", len(la), len(lb)))
            files["want.txt"] = want_b
            c.violation("expand:" + ident, "expansion differs (line, got, expected): %r\n%s" % (df, args), files)
        nph = len(PH.findall(tpl))
        c.case(ident, nph > 0 or "@" in tpl or "PARAM_SKIP" in tpl)
        c.count("templates_compared")
        c.count("placeholders_in_templates", nph)
        c.count("joined_lines", tpl.count("@\n") + tpl.count("@\r\n"))
        c.count("marker_lines", tpl.count("%PARAM_SKIP"))
        if s[6]:
            c.count("ast_inputs")
        if k % 300 == 0:
            c.sample({"template": tpl[:300], "args": args, "output": out[:300].decode("latin-1")})
