"""T07: exit status 0 means the complete output was written."""
import os, resource, shutil, signal
from vk import decl, fsutil
from vk.core import HarnessError, pmap, run, run2, sha
from vk.tool import Tool

TECHNIQUE = "runtime monitoring with fault injection: file size limits at many offsets, full and closed standard output, full second file; complete bytes compared with an unrestricted run"
LEVEL_NOTE = "exploration: real write errors from the kernel (EFBIG, ENOSPC, EBADF, EPIPE) at sampled and boundary offsets"


def limit(n):
    def f():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
    return f


def requests(r, thorough):
    """(name, args, output files or None for stdout, uses template)"""
    reqs = []
    for fmt in ("c", "c++", "minimal", "minimal-c++", "plugin"):
        reqs.append((fmt, ["-format=" + fmt], "one"))
        if not fmt.startswith("minimal"):
            reqs.append((fmt + "+separate", ["-format=" + fmt, "-separate"], "two"))
    reqs.append(("template", ["-template=t.tpl"], "one"))
    reqs.append(("bigtemplate", ["-template=big.tpl"], "one"))
    return reqs


def check(c):
    c.rule = ("requests (every format, -separate, custom templates, -print-symbols, -help, -full-help, -version, -dump-templates) x write fault (size limit at boundary and random "
              "offsets of every file, /dev/full, closed stdout, broken pipe); non-trivial: the fault was or could have been hit")
    c.assumptions = ["a write error is a real one from the kernel", "-no-date removes the only run-dependent line"]
    tool = Tool(c)
    r = c.rng
    d = c.mkdir("w")
    syms = decl.gen_decls(r, decl.Spec(nsyms=(12, 12), variadic=True))
    with open(d + "/in.txt", "w") as f:
        f.write(decl.plain_text(syms))
    with open(d + "/t.tpl", "w") as f:
        f.write("// %%symbol%%\nGDO_a gdo_b\n")
    with open(d + "/big.tpl", "w") as f:
        f.write("".join("/* %d */ %%%%type%%%% %%%%func_symbol%%%%(%%%%args%%%%);\n" % i for i in range(400)))
    inp = d + "/in.txt"
    seq = [0]

    def fresh():
        with c.lock:
            seq[0] += 1
            w = os.path.join(d, "r%d" % seq[0])
        os.makedirs(w)
        for t in ("t.tpl", "big.tpl"):
            os.link(d + "/" + t, w + "/" + t)
        return w

    def outputs(w):
        res = {}
        for n in sorted(os.listdir(w)):
            if not n.endswith(".tpl"):
                res[n] = open(os.path.join(w, n), "rb").read()
        return res

    ref, stdout_ref = {}, {}
    jobs = []
    for name, args, kind in requests(r, c.thorough):
        w = fresh()
        base = [tool.exe, inp, "-no-date"] + args
        res = run2(base + ["-out=o.h"], cwd=w)
        if res.rc != 0:
            raise HarnessError("reference run fails: " + res.text())
        ref[name] = outputs(w)
        if any(not v for v in ref[name].values()):
            raise HarnessError("empty reference output")
        sizes = sorted({len(v) for v in ref[name].values()})
        offs = {0, 1, 4095, 4096, 4097, 8191, 8192, 16384}
        for s in sizes:
            offs |= {s - 1, s, s + 1, s - 2, s // 2, s - s % 4096, s - s % 8192, s - s % 8191, s - 512}
        for _ in range(c.n(6, 60)):
            offs.add(r.randint(0, max(sizes) + 10))
        for o in sorted(x for x in offs if x >= 0):
            jobs.append(("limit", name, base + ["-out=o.h"] + (["-force"] if r.random() < 0.3 else []), o))
        if kind == "one":
            w = fresh()
            res = run2(base, cwd=w)
            stdout_ref[name] = res.out
            if res.rc != 0 or not res.out:
                raise HarnessError("reference run fails: " + res.text())
            for o in sorted(x for x in offs if x >= 0)[::2]:
                jobs.append(("limit-stdout", name, base + r.choice([[], ["-out=-"]]), o))
            for f in ("full", "closed", "pipe", "readonly"):
                jobs.append((f, name, base, 0))
    for name, args in (("print", ["-print-symbols"]), ("help", ["-help"]), ("?", ["-?"]), ("full-help", ["-full-help"]), ("version", ["-version"])):
        base = [tool.exe, inp] + args
        res = run2(base, cwd=fresh())
        if res.rc != 0 or not res.out:
            raise HarnessError("reference run fails: " + res.text())
        stdout_ref[name] = res.out
        for f in ("full", "closed", "pipe", "readonly"):
            jobs.append((f, name, base, 0))
        for o in sorted({0, 1, len(res.out) - 1, len(res.out), len(res.out) // 2, len(res.out) + 1}):
            jobs.append(("limit-stdout", name, base, o))
    # dump-templates: many files
    w = fresh()
    res = run2([tool.exe, "-dump-templates=dump"], cwd=w)
    if res.rc != 0:
        raise HarnessError("cannot dump templates")
    dump = {n: open(os.path.join(w, "dump", n), "rb").read() for n in sorted(os.listdir(w + "/dump"))}
    offs = set()
    for v in dump.values():
        offs |= {len(v) - 1, len(v), len(v) + 1}
    offs |= {0, 1, 4096} | {r.randint(0, max(map(len, dump.values()))) for _ in range(c.n(10, 80))}
    for o in sorted(x for x in offs if x >= 0):
        jobs.append(("dump", "dump", [tool.exe, "-dump-templates=dump"], o))
    jobs.append(("dump-full", "dump", [tool.exe, "-dump-templates=dump"], 0))

    def one(job):
        how, name, argv, o = job
        w = fresh()
        c.count("tool_runs")
        if how in ("limit", "dump"):
            res = run2(argv, cwd=w, preexec=limit(o))
            got = outputs(w) if how == "limit" else ({n: open(os.path.join(w, "dump", n), "rb").read() for n in sorted(os.listdir(w + "/dump"))} if os.path.isdir(w + "/dump") else {})
        elif how == "limit-stdout":
            with open(w + "/stdout.tpl", "wb") as f:
                res = run2(argv, cwd=w, preexec=limit(o), stdout=f)
            got = open(w + "/stdout.tpl", "rb").read()
        else:
            if how in ("full", "dump-full"):
                f = open("/dev/full", "wb")
                res = run2(argv, cwd=w, stdout=f)
                f.close()
            elif how == "closed":
                res = run2(argv, cwd=w, preexec=lambda: os.close(1))
            elif how == "readonly":
                f = open("/dev/null", "rb")
                res = run2(argv, cwd=w, stdout=f)
                f.close()
            else:
                a, b = os.pipe()
                os.close(a)
                res = run2(argv, cwd=w, stdout=b, preexec=lambda: signal.signal(signal.SIGPIPE, signal.SIG_IGN))
                os.close(b)
            got = None
        extra = sorted(os.listdir(w)) if how in ("full", "closed", "pipe", "readonly", "limit-stdout") else []
        shutil.rmtree(w)
        return res, got, [x for x in extra if not x.endswith(".tpl")]

    failed = ok = 0
    for job, (res, got, extra) in zip(jobs, pmap(one, jobs)):
        how, name, argv, o = job
        ident = "%s:%s:%s" % (how, name, o)
        desc = "%s %s offset %s: %s\n%s" % (how, name, o, argv[1:], res.text(300))
        if res.timeout:
            c.inconcl("timeout " + ident)
            continue
        if how == "limit":
            want = ref[name]
            must_fail = any(len(v) > o for v in want.values())
            complete = got == want
        elif how == "dump":
            want = dump
            must_fail = any(len(v) > o for v in want.values())
            complete = got == want
        elif how == "limit-stdout":
            want = stdout_ref[name]
            must_fail = len(want) > o
            complete = got == want
        else:
            want, must_fail, complete = None, True, False
        files = {"args.txt": repr((how, o, argv[1:])), "stderr.txt": res.err}
        if res.rc == 0 and not complete:
            c.violation("incomplete:" + ident, "exit status 0 but the output is incomplete: " + desc, files)
        if must_fail and res.rc == 0 and complete:
            raise HarnessError("fault not effective: " + desc)
        if not must_fail and res.rc != 0:
            c.violation("refused:" + ident, "no write failed, yet the run fails: " + desc, files)
        if res.rc != 0 and (res.rc < 0 or not res.err.strip()):
            c.violation("silent:" + ident, "write failure not reported: " + desc, files)
        if extra:
            c.violation("stray:" + ident, "stray files %s: %s" % (extra, desc), files)
        failed += res.rc != 0
        ok += res.rc == 0
        c.case(ident)
        if len(c.samples) < 6 and (failed % 40 == 1):
            c.sample({"fault": how, "request": name, "offset": o, "rc": res.rc, "stderr": res.err[:160].decode("utf-8", "replace")})
    c.extra.update(runs_with_write_error=failed, runs_without=ok)
