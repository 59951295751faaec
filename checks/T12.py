"""T12: -line attributes every generated line to its true origin and changes nothing else."""
import os, re, shutil
from vk import decl, opts
from vk.core import REPO, HarnessError, pmap, sha
from vk.tool import Tool
from checks import T10

TECHNIQUE = "runtime monitoring: every line of real outputs is attributed by the C rules for #line and judged against the template line it must come from or its own position"
LEVEL_NOTE = "exploration: all formats and templates x random declarations and options, built-in, dumped, edited and custom templates"

DIRECTIVE = re.compile(r'#line (\d+)(?: "(.*)")?$')
PHS = re.compile(r"(?:%%(?:" + "|".join(T10.ALL) + r")%% ?)")
USES = {"c": ["common.h", "common.c", "c.h", "c.c"], "c++": ["common.h", "common.c", "cxx.hpp", "cxx.cpp"], "plugin": ["common.h", "common.c", "plugin.h", "plugin.c"],
        "minimal": ["minimal.h"], "minimal-c++": ["minimal_cxxeh.hpp"]}


def split(b):
    return b.decode("latin-1").split("\n")


def attribute(text):
    """[(physical line, text, file or None, line)] for every line that is no directive"""
    res, f, n = [], None, 0
    for i, l in enumerate(text.split("\n")):
        m = DIRECTIVE.match(l)
        if m:
            if m.group(2) is not None:
                f = re.sub(r"\\(.)", r"\1", m.group(2))
            n = int(m.group(1))
            # a directive without name keeps the presumed file name
            if f is None:
                f = "<own>"
            continue
        res.append((i + 1, l, f, n if f is not None else i + 1))
        if f is not None:
            n += 1
    return res


def matches(parts, text):
    """text is made of the fixed parts, in order, with anything in between"""
    if len(parts) == 1:
        return text == parts[0]
    if not text.startswith(parts[0]) or not text.endswith(parts[-1]) or len(text) < len(parts[0]) + len(parts[-1]):
        return False
    i, end = len(parts[0]), len(text) - len(parts[-1])
    for p in parts[1:-1]:
        i = text.find(p, i, end)
        if i < 0:
            return False
        i += len(p)
    return True


def template_model(raw, skip, pfx):
    """{line number: (fixed parts, plain?, active?)} of a template's physical lines"""
    lines = raw.decode("latin-1").split("\n")
    m, off, i = {}, False, 0
    while i < len(lines):
        j = i
        while lines[j].endswith(("@", "@\r")) and j + 1 < len(lines):
            j += 1
        grp = []
        for k in range(i, j + 1):
            t = lines[k]
            if k < j:
                t = t[:-2] + "\r" if t.endswith("@\r") else t[:-1]
            elif t.endswith("@"):
                t = t[:-1]
            grp.append(t)
        mark = "" if i != j else grp[0][:-1] if grp[0].endswith("\r") else grp[0]
        is_mark = mark in T10.MARK
        if is_mark:
            off = {T10.MARK[0]: skip, T10.MARK[1]: not skip, T10.MARK[2]: False}[mark]
        joined = T10.rename("\n".join(grp), pfx) if pfx else "\n".join(grp)
        ph = bool(PHS.search(joined)) and not is_mark
        for k, t in enumerate(joined.split("\n")):
            m[i + 1 + k] = (PHS.split(t), not ph and not is_mark, not off and not is_mark)
        i = j + 1
    return m


def check(c):
    c.rule = ("formats x -param x prefixes x random declarations (functions only, objects only, both) x -separate/-out/stdout x built-in, dumped, edited-dump and custom templates; "
              "non-trivial: a run with -line whose every line was attributed")
    c.assumptions = ["with -templates-path the directives name the template by its file name", "custom templates without own #line lines"]
    tool = Tool(c)
    r = c.rng
    root = c.mkdir("w")
    dump = c.path("dump")
    if tool.run(["-dump-templates=" + dump]).rc != 0:
        raise HarnessError("dump fails")
    srcs = {n: open(os.path.join(dump, n), "rb").read() for n in sorted(os.listdir(dump))}
    # an edited dump: line counts shifted, joined lines and markers added at the borders
    edited = c.path("edited")
    os.makedirs(edited)
    esrc = {}
    for n, b in srcs.items():
        if n != "license.h":
            top = b"/* vk top */\n%PARAM_SKIP_REMOVE_BEGIN%\n/* vk names */\n%PARAM_SKIP_END%\n/* vk@\n%%func_symbol%%@\n*/\n/* vk %%obj_symbol%% */\n/* vk@\n@\n%%symbol%% */\n%PARAM_SKIP_USE_BEGIN%\n\n/* vk no names */\n%PARAM_SKIP_END%\n\n"
            if n == "filename_macros.h":
                top = b"/* vk top */\n\n/* vk@\n two */\n"
            b = top + b + (b"/* vk %%func_symbol%% */\n/* vk end %%obj_symbol%% */\n" if n != "filename_macros.h" else b"/* vk end */\n")
        esrc[n] = b
        with open(os.path.join(edited, n), "wb") as f:
            f.write(b)
    jobs = []
    for i in range(c.n(22, 160)):
        for fmt in USES:
            mode = r.choice(["read", "skip", "create"])
            kinds = r.choice([(True, True)] * 2 + [(True, False), (False, True)])
            syms = decl.gen_decls(r, decl.Spec(named=(mode == "read"), funcs=kinds[0], objects=kinds[1], nsyms=(1, 7)))
            o = opts.gen(r, (), mode, allow_prefix=0.08)
            o.format, o.line = fmt, False
            o.separate = fmt not in ("minimal", "minimal-c++") and r.random() < 0.5
            jobs.append((len(jobs), fmt, o, decl.plain_text(syms).encode(), r.choice(["built-in", "built-in", "dump", "edited"]), r.choice(["o.h", "o.h", "sub/x.y.h", "q\"u.h", "b\\n.h", "-", None])))

    def gen(w, args, data, outn):
        os.makedirs(w + "/sub")
        res = tool.run(["-"] + args + (["-out=" + outn] if outn else []), stdin=data, cwd=w)
        out = {}
        for d, _, fs in os.walk(w):
            for n in fs:
                out[n] = open(os.path.join(d, n), "rb").read()
        if outn in ("-", None):
            out["stdout"] = res.out
        shutil.rmtree(w)
        return res, out

    def one(j):
        k, fmt, o, data, tp, outn = j
        args = [a for n, v, _ in opts.items(o) for a in opts.spell(None, n, v, True)]
        args += {"built-in": [], "dump": ["-templates-path=" + dump], "edited": ["-templates-path=" + edited + "/"]}[tp]
        return args, gen(os.path.join(root, "a%d" % k), args, data, outn), gen(os.path.join(root, "b%d" % k), args + ["-line"], data, outn)

    models = {}
    for j, (args, (ra, oa), (rb, ob)) in zip(jobs, pmap(one, jobs)):
        k, fmt, o, data, tp, outn = j
        ident = sha(data + repr((args, outn)).encode())
        files = {"input.txt": data, "args.txt": repr((args, outn))}
        if ra.rc != 0 or rb.rc != 0:
            c.violation("fails:" + ident, "valid request fails %s\n%s\n%s" % (args, ra.text(300), rb.text(300)), files)
            continue
        if sorted(oa) != sorted(ob):
            c.violation("files:" + ident, "-line changes the set of output files: %s / %s" % (sorted(oa), sorted(ob)), files)
            continue
        used = (["filename_macros.h"] + USES[fmt])
        seen, ok = {}, True
        for n in ob:
            la, lb = split(oa[n]), split(ob[n])
            if not ok:
                break
            if [l for l in lb if not DIRECTIVE.match(l)] != la:
                df = next(((p, x, y) for p, (x, y) in enumerate(zip(la, [l for l in lb if not DIRECTIVE.match(l)])) if x != y), "length")
                c.violation("strip:" + ident, "-line changes more than directives (%s): %s\n%s" % (n, df, args), files)
                continue
            body = o.separate and n.endswith((".c", ".cpp"))
            own = n if n != "stdout" else o.header_name()
            for phys, text, f, line in attribute(ob[n].decode("latin-1")):
                if f is None:
                    continue
                c.count("lines_attributed")
                if f == own:
                    if line != phys:
                        c.violation("own:" + ident, "%s line %d is attributed to %s:%d: %r\n%s" % (n, phys, f, line, text[:100], args), dict(files, **{n: ob[n]}))
                        ok = False
                        break
                    seen.setdefault(f, []).append((phys, text))
                    continue
                b = os.path.basename(f)
                if tp == "built-in":
                    bad = not re.fullmatch(r"<built-in>/[\w.]+", f)
                else:
                    bad = False
                src = (esrc if tp == "edited" else srcs).get(b)
                if bad or src is None:
                    c.violation("file:" + ident, "%s line %d is attributed to unknown file %r: %r" % (n, phys, f, text[:100]), dict(files, **{n: ob[n]}))
                    ok = False
                    break
                key = (tp == "edited", b, o.param == "skip", o.prefix)
                if key not in models:
                    models[key] = template_model(src, o.param == "skip", o.prefix)
                mo = models[key].get(line)
                last = phys == len(lb) and text == ""
                if last:
                    continue
                if mo is None or not mo[2] or not matches(mo[0], text):
                    c.violation("attr:" + ident, "%s line %d %r is attributed to %s:%d, which is %s\n%s" % (n, phys, text[:100], f, line, "beyond its end" if mo is None else repr(src.decode("latin-1").split("\n")[line - 1]), args), dict(files, **{n: ob[n]}))
                    ok = False
                    break
                seen.setdefault(b, []).append((line, phys))
        # every active plain line of every template in use shows up, exactly once
        if ok:
            for b in used:
                mo = models.get((tp == "edited", b, o.param == "skip", o.prefix))
                want = sorted(l for l, (_, plain, act) in mo.items() if plain and act and l < max(mo)) if mo else None
                gotl = sorted(l for l, _ in seen.get(b, []) if mo and mo[l][1])
                if want is None or want != gotl:
                    c.violation("cover:" + ident, "lines of %s that are not attributed to it (or more than once): %s\n%s" % (b, sorted(set(want or []) ^ set(gotl))[:10] if want else "all", args), files)
        c.case("gen" + ident)
        c.count("outputs_" + tp)
        if k % 50 == 0:
            c.sample({"args": args, "lines_by_file": {f: len(v) for f, v in seen.items()}})
    custom(c, tool, r, root)


def mixed(t, skip):
    """placeholders of several kinds on one line, by accident"""
    class NoData:
        funcs = objs = ()
    try:
        T10.expand(t, NoData, skip, None)
        return False
    except T10.Mixed:
        return True


def custom(c, tool, r, root):
    jobs = []
    for i in range(c.n(40, 300)):
        mode = r.choice(["read", "skip", "create"])
        kinds = r.choice([(True, True)] * 2 + [(True, False), (False, True)])
        syms = decl.gen_decls(r, decl.Spec(named=(mode == "read"), funcs=kinds[0], objects=kinds[1], nsyms=(1, 6)))
        for k in range(c.n(12, 25)):
            pfx = r.choice(["abc", "My_Lib"]) if k == 0 else None
            t = "#line 7"
            while re.search(r"(?m)^#line", t) or mixed(t, mode == "skip"):
                t = T10.gen_template(r, pfx, False)
            jobs.append((len(jobs), mode, decl.plain_text(syms).encode(), t, pfx, r.choice(["t.tpl", "sub/u.tpl", "-", "q\"t.tpl", "b\\t.tpl"])))

    def one(j):
        k, mode, data, t, pfx, tn = j
        w = os.path.join(root, "c%d" % k)
        os.makedirs(w + "/sub")
        with open(w + "/i.txt", "wb") as f:
            f.write(data)
        if tn != "-":
            with open(os.path.join(w, tn), "wb") as f:
                f.write(t.encode("latin-1"))
        args = ["i.txt", "-param=" + mode, "-template=" + tn] + (["-prefix=" + pfx] if pfx else [])
        sin = t.encode("latin-1") if tn == "-" else b""
        a = tool.run(args, stdin=sin, cwd=w)
        b = tool.run(args + ["-line"], stdin=sin, cwd=w)
        shutil.rmtree(w)
        return args, a, b

    for j, (args, a, b) in zip(jobs, pmap(one, jobs)):
        k, mode, data, t, pfx, tn = j
        ident = sha(data + t.encode("latin-1") + repr(args).encode())
        files = {"input.txt": data, "template.tpl": t.encode("latin-1"), "args.txt": repr(args), "out.txt": b.out}
        if a.rc != 0 or b.rc != 0:
            c.violation("custom-fails:" + ident, "valid template fails %s\n%s\n%s" % (args, a.text(300), b.text(300)), files)
            continue
        la = split(a.out)
        if [l for l in split(b.out) if not DIRECTIVE.match(l)] != la:
            c.violation("custom-strip:" + ident, "-line changes more than directives %s" % args, files)
            continue
        mo = template_model(t.encode("latin-1"), mode == "skip", pfx)
        name = "<STDIN>" if tn == "-" else tn
        at = attribute(b.out.decode("latin-1"))
        while at and at[-1][1] == "":
            at.pop()
        ok, hit = True, []
        for phys, text, f, line in at:
            c.count("custom_lines_attributed")
            m = mo.get(line)
            if f is None or os.path.basename(f) != os.path.basename(name) or m is None or not m[2] or not matches(m[0], text):
                c.violation("custom-attr:" + ident, "line %d %r is attributed to %s:%s, which is %s\n%s" % (phys, text[:100], f, line, "beyond its end" if m is None else repr(t.split("\n")[line - 1][:100]), args), files)
                ok = False
                break
            hit.append(line)
        c.case("custom" + ident, len(at) > 0)
