"""T09: dumped templates are faithful and can replace the built-in ones."""
import os, re, shutil
from vk import decl, opts
from vk.core import REPO, HarnessError, pmap, run, sha
from vk.tool import Tool

TECHNIQUE = "runtime monitoring: real dumps compared with the template sources, generation from dumps compared byte by byte with built-in generation, single edits traced into the output"
LEVEL_NOTE = "exploration: all 13 templates, every format, random option sets, sampled edits of every template"

# templates a format is generated from (documented by the template list)
USES = {"c": ["common.h", "common.c", "c.h", "c.c"], "c++": ["common.h", "common.c", "cxx.hpp", "cxx.cpp"], "plugin": ["common.h", "common.c", "plugin.h", "plugin.c"],
        "minimal": ["minimal.h"], "minimal-c++": ["minimal_cxxeh.hpp"]}
ALWAYS = ["license.h", "filename_macros.h"]


def check(c):
    c.rule = ("dump vs source files; -templates-path on an unmodified dump vs built-in for every format x random options (with and without -line); line insertions, deletions and changes in "
              "every used template and where they show up; removed/unreadable templates; non-trivial: every comparison")
    c.assumptions = ["the template sources are src/templates/* of the tree under test", "edits are made to lines outside placeholders and marker lines, away from trailing-@ groups"]
    tool = Tool(c)
    r = c.rng
    root = c.mkdir("w")
    srcdir = os.path.join(REPO, "src", "templates")
    # --- dump == sources
    dump = c.path("dump")
    res = tool.run(["-dump-templates=" + dump])
    if res.rc != 0:
        c.violation("dump-status", "-dump-templates into a new directory does not report success\n" + res.text(400))
        if not os.path.isdir(dump):
            return
    src = {n: open(os.path.join(srcdir, n), "rb").read() for n in sorted(os.listdir(srcdir)) if n != "README.md"}
    got = {n: open(os.path.join(dump, n), "rb").read() for n in sorted(os.listdir(dump))}
    if sorted(src) != sorted(got):
        c.violation("dump-list", "templates missing from or added to the dump: %s" % sorted(set(src) ^ set(got)))
    for n in sorted(set(src) & set(got)):
        if src[n] != got[n]:
            a, b = src[n].split(b"\n"), got[n].split(b"\n")
            d = next(((i + 1, x, y) for i, (x, y) in enumerate(zip(a, b)) if x != y), ("length", len(a), len(b)))
            c.violation("dump:" + n, "dumped %s differs from the built-in source: %s" % (n, d), {"dumped": got[n]})
        c.case("dump" + n)
    # into other kinds of directories, and from other option positions
    for args in (["-dump-templates", "new/deep/dir"], ["--dump-templates=existing"], ["-dump-templates=existing/"], ["-line", "-prefix=abc", "-param=skip", "-dump-templates=existing2", "-format=plugin"]):
        w = c.mkdir("d" + sha(repr(args)))
        os.makedirs(w + "/existing", exist_ok=True)
        res = tool.run(args, cwd=w)
        p = next(a.split("=")[-1] for a in args if "/" in a or "existing" in a)
        g = {n: open(os.path.join(w, p, n), "rb").read() for n in sorted(os.listdir(os.path.join(w, p)))} if os.path.isdir(os.path.join(w, p)) else None
        if res.rc != 0 or g != got:
            c.violation("dump-args:" + repr(args), "dump differs with %s\n%s" % (args, res.text(300)))
        c.case("dumpargs" + repr(args))
    # --- generation from an unmodified dump
    jobs = []
    combos = [(f, line, skip) for f in USES for line in (False, True) for skip in (False, True)]
    for i in range(c.n(4, 40)):
        for f, line, skip in combos:
            mode = "skip" if skip else r.choice(["read", "create"])
            syms = decl.gen_decls(r, decl.Spec(named=(mode == "read"), nsyms=(1, 8)))
            o = opts.gen(r, (), mode, allow_prefix=0.04)
            o.format, o.line = f, line
            o.separate = f not in ("minimal", "minimal-c++") and r.random() < 0.4
            jobs.append((len(jobs), o, decl.plain_text(syms).encode(), r.choice([dump, dump + "/", os.path.relpath(dump, "/tmp") and dump + "/."])))

    def gen(w, args, data):
        os.makedirs(w)
        res = tool.run(["-"] + args + ["-out=o.h"], stdin=data, cwd=w)
        out = {n: open(os.path.join(w, n), "rb").read() for n in sorted(os.listdir(w))}
        shutil.rmtree(w)
        return res, out

    def one(j):
        i, o, data, path = j
        args = [a for n, v, _ in opts.items(o) for a in opts.spell(None, n, v, True)]
        a = gen(os.path.join(root, "a%d" % i), args, data)
        b = gen(os.path.join(root, "b%d" % i), args + ["-templates-path=" + path], data)
        return args, a, b

    def first_diff(a, b):
        for n in sorted(set(a) | set(b)):
            x, y = a.get(n, b"").split(b"\n"), b.get(n, b"").split(b"\n")
            for k, (p, q) in enumerate(zip(x, y)):
                if p != q:
                    return "%s line %d: %r / %r" % (n, k + 1, p[:160], q[:160])
            if len(x) != len(y):
                return "%s: %d / %d lines" % (n, len(x), len(y))
        return ""

    LINEDIR = re.compile(rb'^(\s*#\s*line\s+\d+)(\s+".*")?$', re.M)

    def base_names(out):
        """line directives name the template file: only its last component counts"""
        return {n: re.sub(rb'^(#line \d+ )"([^"]*/)?([^"/]*)"', rb'\1"\3"', b, flags=re.M) for n, b in out.items()}

    for j, (args, (ra, oa), (rb, ob)) in zip(jobs, pmap(one, jobs)):
        ident = sha(j[2] + repr(args).encode())
        if ra.rc != 0:
            c.violation("fails:" + ident, "valid request fails: %s\n%s" % (args, ra.text()), {"input.txt": j[2]})
            continue
        if rb.rc != 0 or base_names(oa) != base_names(ob):
            c.violation("external:" + ident, "output from the unmodified dump differs: %s\n%s\n%s" % (args, first_diff(oa, ob), rb.text(300)), {"input.txt": j[2], "args.txt": repr(args)})
        c.case("ext" + ident)
        c.count("dump_vs_builtin")
    # --- edits
    edits(c, tool, r, root, dump, got, gen)
    # --- last line without a line feed
    unterminated(c, tool, r, root, dump, got, gen)
    # --- missing / unreadable
    missing(c, tool, r, root, dump, got)


def editable(lines):
    """indices of plain lines: no placeholder, no marker, no trailing-@ group"""
    ok = []
    for i, l in enumerate(lines):
        prev = lines[i - 1] if i else b""
        if b"%" in l or l.endswith(b"@") or prev.endswith(b"@") or l.startswith(b"#line") or l.endswith(b"\\") or prev.endswith(b"\\"):
            continue
        ok.append(i)
    return ok


def in_plain_group(lines):
    """indices of lines of trailing-@ groups without any placeholder"""
    ok, i = [], 0
    while i < len(lines):
        j = i
        while j < len(lines) - 1 and lines[j].endswith(b"@"):
            j += 1
        if j > i and not any(b"%" in l for l in lines[i:j + 1]):
            ok += [k for k in range(i, j + 1) if not lines[k].endswith(b"\\@")]
        i = j + 1
    return ok


def unterminated(c, tool, r, root, dump, got, gen):
    """templates whose last line isn't ended by a line feed are used completely"""
    data = b"int vk_one(int a, const char *b);\nextern int vk_obj;\n"
    d = os.path.join(root, "U")
    shutil.copytree(dump, d)
    for n in got:
        if not got[n].rstrip(b"\r\n").endswith(b"%PARAM_SKIP_END%"):
            with open(os.path.join(d, n), "wb") as f:
                f.write(got[n].rstrip(b"\r\n") + b"\n/* vk last of %s */" % n.encode())
    for fmt, names in USES.items():
        args = ["-no-date", "-format=" + fmt] + r.choice([[], ["-param=create"], ["-param=skip"]])
        r0, o0 = gen(os.path.join(root, "u0"), args, data)
        r1, o1 = gen(os.path.join(root, "u1"), args + ["-templates-path=" + d], data)
        if r0.rc != 0:
            raise HarnessError("reference generation fails: " + r0.text())
        text = b"".join(o1[f] for f in sorted(o1))
        plain = [l for l in re.sub(rb"/\* vk last of \S+ \*/", b"", text).split(b"\n") if l.strip()]
        want = [l for f in sorted(o0) for l in o0[f].split(b"\n") if l.strip()]
        missing = [n for n in names + ALWAYS if b"vk last of %s */" % n.encode() not in text and not got[n].rstrip().endswith(b"%PARAM_SKIP_END%")]
        if r1.rc != 0 or missing or plain != want:
            c.violation("unterminated:" + fmt, "templates without a final line feed: last lines missing of %s, other lines %s\n%s" % (missing, "equal" if plain == want else "changed", r1.text(300)), {"args.txt": repr(args)})
        c.case("unterminated " + fmt)
        c.count("unterminated")


def edits(c, tool, r, root, dump, got, gen):
    """a changed / inserted / removed line must show up exactly there"""
    data = b"int vk_one(int a, const char *b);\nvoid vk_two(void);\nextern int vk_obj;\nchar vk_arr[4];\n"
    refs = {}
    jobs = []
    for fmt, names in USES.items():
        for skip in (False, True):
            for n in names + ALWAYS:
                lines = got[n].split(b"\n")[:-1]
                # which lines are active depends on the parameter-skip markers
                state, active = None, {}
                for i, l in enumerate(lines):
                    if l == b"%PARAM_SKIP_REMOVE_BEGIN%":
                        state = not skip
                    elif l == b"%PARAM_SKIP_USE_BEGIN%":
                        state = skip
                    elif l == b"%PARAM_SKIP_END%":
                        state = None
                    active[i] = state is not False
                cand = editable(lines)
                grp = in_plain_group(lines)
                for k in range(c.n(3, 25)):
                    how = r.choice(["change", "insert", "delete", "insert-placeholder", "group"])
                    if grp and (not cand or r.random() < 0.3):
                        how, i = "change", r.choice(grp)
                    else:
                        i = r.choice(cand)
                    if n in ALWAYS and how in ("insert-placeholder", "group"):
                        how = "change"       # these two are copied, not expanded
                    jobs.append((len(jobs), fmt, skip, n, i, how, active[i], r.random() < 0.3))

    def one(j):
        k, fmt, skip, n, i, how, active, sep = j
        d = os.path.join(root, "T%d" % k)
        shutil.copytree(dump, d)
        lines = got[n].split(b"\n")
        tag = b"/* vk edit %d */" % k
        if how == "change":
            at = b"@" if lines[i].endswith(b"@") else b""
            lines[i] = lines[i][:len(lines[i]) - len(at)] + b" " + tag + at
        elif how == "insert":
            lines.insert(i, tag)
        elif how == "delete":
            del lines[i]
        elif how == "insert-placeholder":
            lines.insert(i, b"/* vk edit %d %%%%symbol%%%% */" % k)
        else:
            lines[i:i] = [b"/* vk edit %d@" % k, b"%%func_symbol%%%%@".replace(b"%%%%", b"%%") + b"", b"*/"]
        with open(os.path.join(d, n), "wb") as f:
            f.write(b"\n".join(lines))
        args = ["-no-date", "-format=" + fmt] + (["-param=skip"] if skip else []) + (["-separate"] if sep and not fmt.startswith("minimal") else [])
        key = tuple(args)
        with c.lock:
            ref = refs.get(key)
        if ref is None:
            ref = gen(os.path.join(root, "R%d" % k), args, data)
            with c.lock:
                refs[key] = ref
        res = gen(os.path.join(root, "E%d" % k), args + ["-templates-path=" + d], data)
        shutil.rmtree(d)
        return args, ref, res

    for j, (args, (r0, o0), (r1, o1)) in zip(jobs, pmap(one, jobs)):
        k, fmt, skip, n, i, how, active, sep = j
        if r0.rc != 0:
            raise HarnessError("reference generation fails: " + r0.text())
        ident = "%s:%s:%d:%s:%s" % (fmt, n, i, how, skip)
        l0 = [(f, l) for f in sorted(o0) for l in o0[f].split(b"\n")]
        l1 = [(f, l) for f in sorted(o1) for l in o1[f].split(b"\n")]
        tag = b"/* vk edit %d " % k
        files = 2 if n in ALWAYS and len(o1) == 2 and n == "license.h" else 1
        if r1.rc != 0:
            c.violation("edit:" + ident, "generation with an edited template fails: %s\n%s" % (args, r1.text(400)))
            continue
        if not active:
            if l0 != l1:
                c.violation("edit:" + ident, "an edit in a skipped part of %s line %d shows in the output (%s)" % (n, i + 1, args))
        elif how == "change":
            orig = got[n].split(b"\n")[i]
            ch = [(a, b) for a, b in zip(l0, l1) if a != b]
            if orig.endswith(b"@"):
                orig = orig[:-1]
            want = orig + b" /* vk edit %d */" % k
            if len(l0) != len(l1) or len(ch) != files or any(b[1] != want or a[1] != orig for a, b in ch):
                c.violation("edit:" + ident, "changed line %d of %s: expected exactly %r, got changes %r (%s)" % (i + 1, n, want, ch[:3], args))
        elif how == "insert":
            rest = [x for x in l1 if x[1] != b"/* vk edit %d */" % k]
            if rest != l0 or len(l1) - len(l0) != files:
                c.violation("edit:" + ident, "inserted line at %d of %s: output is not the old one plus that line (%d / %d lines) (%s)" % (i + 1, n, len(l0), len(l1), args))
        elif how == "delete":
            # the old output minus one line (per file the template is used in)
            orig = got[n].split(b"\n")[i]
            ok = len(l0) - len(l1) == files
            if ok:
                miss, p = [], 0
                for x in l0:
                    if p < len(l1) and l1[p] == x:
                        p += 1
                    else:
                        miss.append(x[1])
                ok = p == len(l1) and all(m == orig for m in miss)
            if not ok:
                c.violation("edit:" + ident, "deleted line %d of %s (%r): output is not the old one minus that line (%s)" % (i + 1, n, orig, args))
        elif how == "insert-placeholder":
            want = [b"/* vk edit %d %s */" % (k, s) for s in (b"vk_one", b"vk_two", b"vk_obj", b"vk_arr")]
            mine = [x[1] for x in l1 if tag in x[1]]
            if sorted(mine) != sorted(want) or [x for x in l1 if tag not in x[1]] != l0:
                c.violation("edit:" + ident, "inserted placeholder line in %s: got %r (%s)" % (n, mine, args))
        else:
            # "/* vk edit K@" + "%%func_symbol%%@" + "*/": one block per function
            txt = b"\n".join(x[1] for x in l1)
            want = b"\n".join(b"/* vk edit %d\n%s\n*/" % (k, s) for s in (b"vk_one", b"vk_two"))
            if txt.count(want) != 1 or len(l1) - len(l0) != 6:
                c.violation("edit:" + ident, "inserted line group in %s is not expanded per function (%s): %r" % (n, args, [x[1] for x in l1 if b"vk edit" in x[1]][:4]))
        c.case("edit" + ident)
        c.count("edits_" + how)
        if k % 60 == 0:
            c.sample({"template": n, "line": i + 1, "edit": how, "args": args, "active": active})


def missing(c, tool, r, root, dump, got):
    data = b"int vk_one(int a, const char *b);\nextern int vk_obj;\n"
    jobs = []
    for fmt, names in USES.items():
        for n in sorted(got):
            for how in ("removed", "directory", "dangling"):
                jobs.append((len(jobs), fmt, n, how, r.random() < 0.4, r.random() < 0.3))

    def one(j):
        k, fmt, n, how, sep, line = j
        d = os.path.join(root, "M%d" % k)
        shutil.copytree(dump, d)
        os.unlink(os.path.join(d, n))
        if how == "directory":
            os.mkdir(os.path.join(d, n))
        elif how == "dangling":
            os.symlink("nowhere", os.path.join(d, n))
        args = ["-", "-no-date", "-format=" + fmt, "-templates-path=" + d] + ["-separate"] * sep + ["-line"] * line + ["-out=" + d + "/o.h"]
        res = tool.run(args, stdin=data)
        made = [x for x in os.listdir(d) if x.startswith("o.")]
        shutil.rmtree(d)
        return res, made

    for j, (res, made) in zip(jobs, pmap(one, jobs)):
        k, fmt, n, how, sep, line = j
        needed = n in USES[fmt] + ALWAYS
        ident = "%s:%s:%s" % (fmt, n, how)
        if needed and (res.rc == 0 or not res.err.strip()):
            c.violation("missing:" + ident, "%s template %s not reported for format %s\n%s" % (how, n, fmt, res.text(300)))
        if needed and n.encode() not in res.err:
            c.violation("missing-name:" + ident, "the message does not name the %s template %s\n%s" % (how, n, res.text(300)))
        if not needed and res.rc != 0:
            c.violation("needless:" + ident, "format %s fails over template %s it does not use\n%s" % (fmt, n, res.text(300)))
        c.case("missing" + ident + str(sep))
        c.count("missing_template_cases")
