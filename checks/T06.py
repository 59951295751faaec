"""T06: no overwrite without -force, links never followed, nothing else written."""
import os, re, shutil
from vk import decl, fsutil
from vk.core import HarnessError, pmap, run, sha
from vk.tool import Tool

TECHNIQUE = "runtime monitoring: output path states x options through the real tool, directory snapshots plus a system-call trace of every file-modifying call"
LEVEL_NOTE = "exploration: all listed path states crossed with -force, -separate, formats and custom templates; strace watches the whole file system, snapshots the scratch directory"

STATES = ["absent", "file", "empty", "readonly", "link", "dangling", "linkdir", "linkabs", "linklink", "dir", "fulldir", "fifo", "hardlink", "nodir"]
TEMPLATE = b"// custom %%symbol%%\nGDO_x gdo_y\n"

# calls that create, change or remove something by path
MODIFY = re.compile(r"^(?:\[pid\s+\d+\] |\d+\s+)?(open|openat|openat2|creat|unlink|unlinkat|rename|renameat|renameat2|truncate|mkdir|mkdirat|rmdir|link|linkat|symlink|symlinkat|mknod|mknodat|chmod|fchmodat|chown|lchown|fchownat|utimensat|setxattr|lsetxattr)\((.*)$")


def make_state(w, name, state):
    """returns the path to pass"""
    p = os.path.join(w, name)
    if state == "file":
        open(p, "wb").write(b"precious " * 9)
    elif state == "empty":
        open(p, "wb").close()
    elif state == "readonly":
        open(p, "wb").write(b"read only\n")
        os.chmod(p, 0o444)
    elif state == "link":
        os.symlink("target.dat", p)
    elif state == "linkabs":
        os.symlink(os.path.join(w, "target.dat"), p)
    elif state == "linklink":
        os.symlink("link2", p)
    elif state == "dangling":
        os.symlink("created_through_link", p)
    elif state == "linkdir":
        os.symlink("adir", p)
    elif state == "dir":
        os.mkdir(p)
    elif state == "fulldir":
        os.mkdir(p)
        open(p + "/inside", "wb").write(b"inside\n")
    elif state == "fifo":
        os.mkfifo(p)
    elif state == "hardlink":
        os.link(os.path.join(w, "target.dat"), p)
    return p


def base(w):
    os.makedirs(w + "/adir")
    os.makedirs(w + "/sub.d/adir")
    open(w + "/sub.d/target.dat", "wb").write(b"link target 2\n")
    os.symlink("target.dat", w + "/sub.d/link2")
    open(w + "/adir/inner", "wb").write(b"inner\n")
    open(w + "/target.dat", "wb").write(b"link target\n" * 5)
    os.symlink("target.dat", w + "/link2")
    for n in ("out", "out.h", "out.c", "out.hpp", "out.cpp", "out.txt", "gen.h", "gen.c", "gdo.h", "gendlopen.h", "out.h.c", "out.tmp", "out.h~"):
        open(os.path.join(w, "other_" + n), "wb").write(b"other\n")
    open(w + "/in.txt", "wb").write(b"int vk_one(int a);\nextern int vk_obj;\n")
    open(w + "/t.tpl", "wb").write(TEMPLATE)


def outputs(outname, fmt, separate, custom):
    """documented output files"""
    if custom:
        return [outname]
    if separate and not fmt.startswith("minimal"):
        stem = os.path.splitext(outname)[0]
        return [stem + (".hpp" if fmt == "c++" else ".h"), stem + (".cpp" if fmt == "c++" else ".c")]
    return [outname]


def traced_paths(text, cwd):
    """paths a traced run created, changed or removed (successful calls only)"""
    res = []
    for line in text.splitlines():
        m = MODIFY.match(line)
        if not m:
            continue
        call, rest = m.groups()
        if re.search(r"= -1 E", rest):
            continue
        if call in ("open", "openat", "openat2") and not re.search(r"O_WRONLY|O_RDWR|O_CREAT|O_TRUNC", rest):
            continue
        strs = re.findall(r'"((?:[^"\\]|\\.)*)"', rest)
        for s in strs[-1:] if call.startswith(("symlink",)) else strs[:2] if call.startswith(("rename", "link")) else strs[:1]:
            # strace prints other bytes as octal escapes
            s = s.encode("latin-1", "replace").decode("unicode_escape").encode("latin-1", "replace").decode("utf-8", "replace")
            res.append((call, os.path.normpath(os.path.join(cwd, s))))
    return res


def check(c):
    c.rule = ("state of the output path (%s) x state of the second file x -force x -separate x format x custom template x spelling of the path; "
              "non-trivial: every case (snapshot of the directory and system-call trace compared)" % ", ".join(STATES))
    c.assumptions = ["-dump-templates is a separate operation: its directory contents are not an -out path", "strace shows every path-based system call"]
    tool = Tool(c)
    r = c.rng
    root = c.mkdir("w")
    probe = run(["strace", "-f", "-o", "/dev/null", "/bin/true"])
    trace = probe.rc == 0
    c.extra["system_call_trace"] = trace
    cases = []
    combos = [(s, f) for s in STATES for f in (False, True)]
    i = 0
    for rep in range(c.n(12, 120)):
        for s, force in combos:
            custom = r.random() < 0.2
            separate = r.random() < 0.4
            fmt = r.choice(["c", "c++", "minimal", "minimal-c++", "plugin"])
            out = r.choice(["out.h", "out", "out.c", "out.txt", "gen.x.h", "out.hpp", "o", "sub.d/out", "sub.d/out.h", "a.b.c", ".hid", "out.", "sp ace.h", "x..y", "-dash.h", "sub.d/../up.h", "\u00e9.h"])
            cases.append(dict(i=i, s1=s, s2=r.choice(STATES[:-1] + ["absent"] * 6), force=force, custom=custom, separate=separate, fmt=fmt, out=out,
                              which=r.choice([0, 0, 1]), spell=r.choice(["plain", "plain", "dot", "abs"]), inp=r.choice(["-", "in.txt"])))
            i += 1

    def one(k):
        w = os.path.join(root, str(k["i"]))
        os.makedirs(w)
        base(w)
        sub = "nodir/" if k["s1"] == "nodir" else ""
        outs = outputs(sub + k["out"], k["fmt"], k["separate"], k["custom"])
        st = {}
        if len(outs) == 2:
            st[outs[k["which"]]] = k["s1"]
            st[outs[1 - k["which"]]] = k["s2"] if k["s1"] != "nodir" else "nodir"
        else:
            st[outs[0]] = k["s1"]
            # neighbours derived by other rules must stay untouched
            if sub == "":
                for ext in (".h", ".c", ".hpp", ".cpp"):
                    n = os.path.splitext(k["out"])[0] + ext
                    if n not in outs and n != k["out"]:
                        make_state(w, n, "file")
        if k["out"] not in outs and sub == "" and not os.path.lexists(os.path.join(w, k["out"])):
            make_state(w, k["out"], "file")
        for n, s in st.items():
            make_state(w, n, s)
        p = sub + k["out"]
        p = {"plain": p, "dot": "./" + p, "abs": os.path.join(w, p)}[k["spell"]]
        args = [k["inp"], "-out=" + p, "-format=" + k["fmt"]] + ["-force"] * k["force"] + ["-separate"] * k["separate"] + (["-template=t.tpl"] if k["custom"] else [])
        # outputs by their place in the directory
        norm = os.path.normpath
        st = {norm(n): x for n, x in st.items()}
        outs = [norm(n) for n in outs]
        a = fsutil.snapshot(w)
        data = open(w + "/in.txt", "rb").read()
        tf = os.path.join(root, "trace%d" % k["i"])
        pre = ["strace", "-f", "-qq", "-e", "trace=%file", "-o", tf] if trace else []
        from vk.core import run2
        res = run2(pre + [tool.exe] + args, stdin=data, cwd=w, timeout=30, hang=False)
        c.count("tool_runs")
        b = fsutil.snapshot(w)
        paths = traced_paths(open(tf, errors="replace").read(), w) if trace and os.path.exists(tf) else []
        contents = {}
        for n in outs:
            try:
                if os.path.isfile(os.path.join(w, n)) and not os.path.islink(os.path.join(w, n)):
                    contents[n] = open(os.path.join(w, n), "rb").read()
            except OSError:
                pass
        shutil.rmtree(w)
        if os.path.exists(tf):
            os.unlink(tf)
        return dict(res=res, a=a, b=b, paths=paths, outs=outs, st=st, args=args, w=w, contents=contents)

    per = {}
    for k, o in zip(cases, pmap(one, cases)):
        res, a, b, outs, st = o["res"], o["a"], o["b"], o["outs"], o["st"]
        args = [x.replace(o["w"], "$W") for x in o["args"]]
        ident = sha(repr((args, sorted(st.items()))))
        desc = "states %s args %s\n%s" % (st, args, res.text(300))
        files = {"args.txt": repr((st, args)), "stderr.txt": res.err}
        if res.timeout:
            # e.g. opening a FIFO for writing
            c.violation("hang:" + ident, "the tool hangs: " + desc, files)
            continue
        exists = [n for n in outs if st[n] not in ("absent", "nodir")]
        diffs = fsutil.diff(a, b, ignore=outs + ["target.dat"])
        # directory inode stays; contents of an output directory are listed under it
        if diffs:
            c.violation("other:" + ident, "other paths touched: %s\n%s" % (diffs, desc), files)
        if not k["force"]:
            if exists and res.rc == 0:
                c.violation("noforce-rc:" + ident, "existing output accepted without -force: " + desc, files)
            changed = [n for n in exists if a.get(n) != b.get(n)]
            if changed:
                c.violation("noforce:" + ident, "existing output changed without -force: %s\n%s\n%s" % (changed, [(a.get(n), b.get(n)) for n in changed], desc), files)
        undoable = [n for n in outs if st[n] in ("fulldir", "nodir")]
        if res.rc == 0 and undoable:
            c.violation("undoable:" + ident, "success although %s cannot be written: %s" % (undoable, desc), files)
        if res.rc == 0 or (k["force"] and not undoable) or (not exists and not undoable):
            if res.rc != 0:
                c.violation("fails:" + ident, "writable request fails: " + desc, files)
            for n in outs:
                if b.get(n, ("",))[0] != "file" or n not in o["contents"]:
                    c.violation("notfile:" + ident, "%s is not a regular file afterwards: %s\n%s" % (n, b.get(n), desc), files)
                elif b[n][6] != 1:
                    c.violation("hardlink:" + ident, "%s still shares its inode: %s" % (n, desc), files)
                elif not (b"vk_one" in o["contents"][n] or b"INCLUDED_IN_BODY" in o["contents"][n]):
                    c.violation("content:" + ident, "%s has no output in it: %s" % (n, desc), files)
        elif res.rc < 0 or not res.err.strip():
            c.violation("diag:" + ident, "no proper failure: " + desc, files)
        for n in ("target.dat",):
            x, y = a[n], b.get(n)
            # the link count drops when a hard link is replaced
            if y is None or x[:4] != y[:4]:
                c.violation("target:" + ident, "link target touched: %s -> %s\n%s" % (x, y, desc), files)
        allowed = {os.path.normpath(os.path.join(o["w"], n)) for n in outs}
        bad = [(call, p.replace(o["w"], "$W")) for call, p in o["paths"] if p not in allowed and not p.startswith("/dev/tty")]
        if bad:
            c.violation("trace:" + ident, "file-modifying calls on other paths: %s\n%s" % (bad, desc), files)
        c.count("traced_modifying_calls", len(o["paths"]))
        c.case(ident)
        key = "%s%s" % (k["s1"], "+force" if k["force"] else "")
        per[key] = per.get(key, 0) + 1
        if k["i"] % 60 == 0:
            c.sample({"states": st, "args": args, "rc": res.rc, "calls": [(x, y.replace(o["w"], "$W")) for x, y in o["paths"]]})
    c.extra["cases_per_state"] = per
    nowrite(c, tool)
    if trace and c.extra.get("traced_modifying_calls", 0) == 0:
        raise HarnessError("the system-call trace saw nothing")


def nowrite(c, tool):
    """runs that print only: nothing may be written, whatever else is asked for"""
    r = c.rng
    for i in range(c.n(40, 300)):
        w = c.mkdir("nw%d" % i)
        base(w)
        for n in ("out.h", "out.c"):
            make_state(w, n, r.choice(["file", "link", "dangling", "absent"]))
        args = ["in.txt"] + r.choice([["-print-symbols", "-out=out.h", "-force"], ["-print-symbols", "-separate", "-out=out.h"], ["-out=-", "-force"], ["-separate", "-force"], ["-out=-", "-separate"],
                                      ["-version", "-out=out.h", "-force"], ["-out=out.h", "-force", "-help"], ["-template=t.tpl", "-out=-"], ["-full-help"],
                                      ["-template=t.tpl", "-print-symbols", "-out=out.h", "-force"]])
        r.shuffle(args)
        a = fsutil.snapshot(w)
        res = tool.run(args, cwd=w)
        d = fsutil.diff(a, fsutil.snapshot(w))
        if d or res.rc != 0 or not res.out:
            c.violation("nowrite:" + sha(repr(args)), "print-only run: %s\ntouched %s\n%s" % (args, d, res.text(300)), {"args.txt": repr(args)})
        c.case("nw" + repr(args))
        c.count("print_only_runs")
        shutil.rmtree(w)
