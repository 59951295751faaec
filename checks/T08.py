"""T08: the same request gives the same bytes, whatever channel and spelling."""
import os, re
from vk import decl, opts
from vk.core import HarnessError, pmap, sha
from vk.tool import Tool

TECHNIQUE = "runtime monitoring: metamorphic runs of the real tool (channels, spellings, orders, layouts of one request), outputs compared byte by byte"
LEVEL_NOTE = "exploration: random requests, each in a dozen equivalent forms"

DATE = re.compile(rb"(automatically generated by gendlopen) on [A-Z][a-z]{2} \d{4}-\d\d-\d\d \d\d:\d\d:\d\d [-+]\d{4}\.")


def environment(r):
    """surroundings that must not matter"""
    e = {"LC_ALL": r.choice(["C", "POSIX", "", "tr_TR.UTF-8", "de_DE.ISO-8859-1", "no_such"]), "LANG": r.choice(["", "C", "tr_TR", "ja_JP.eucJP"]), "TZ": r.choice(["UTC", "America/St_Johns", "Asia/Kathmandu", ":nowhere", "XXX+25"]),
         "HOME": r.choice(["", "/nonexistent"]), "TERM": r.choice(["", "dumb", "xterm-256color"]), "COLUMNS": r.choice(["1", "80", "100000"]), "CLICOLOR_FORCE": "1", "POSIXLY_CORRECT": "1", "TMPDIR": "/nonexistent", "PATH": r.choice(["", "/nonexistent"]),
         "GDO_PREFIX": "x", "SOURCE_DATE_EPOCH": r.choice(["0", "junk"]), "CFLAGS": "-DX"}
    return {k: e[k] for k in r.sample(sorted(e), r.randint(3, len(e)))}


def check(c):
    c.rule = ("random declarations and option sets; per request: canonical run against repeated run, stdin/file, stdout/file, LF/CRLF/BOM, %option lines/command line/mixed/overriding, "
              "-ignore-options, option spellings and orders, declaration layouts; non-trivial: every compared pair")
    c.assumptions = ["%option values hold no white space", "the last of a repeated single-value option counts; -D/-include/-P/-S accumulate in order"]
    tool = Tool(c)
    r = c.rng
    root = c.mkdir("w")
    reqs = []
    for i in range(c.n(130, 1300)):
        mode = r.choice(["read", "read", "skip", "create"])
        named = mode == "read" or (mode == "skip" and r.random() < 0.5)
        syms = decl.gen_decls(r, decl.Spec(named=named, nsyms=(1, 10)))
        o = opts.gen(r, [s.name for s in syms], mode, allow_prefix=0.12)
        plain = decl.plain_text(syms)
        its = opts.items(o)
        canon = [a for n, v, _ in its for a in opts.spell(r, n, v, True)]
        V = []

        def var(kind, args, data, inp="-", out=None, nodate=False, env=None, place=None):
            V.append(dict(kind=kind, args=args, data=data if isinstance(data, bytes) else data.encode(), inp=inp, out=out, nodate=nodate, env=env, place=place))
        single = not o.separate
        var("canonical", canon, plain, out=None if single else o.header_name())
        ref_out = V[0]["out"]
        var("repeat", canon, plain, out=ref_out)
        var("file input", canon, plain, inp=r.choice(["in.txt", "sub/x y.h", "a.cpp", "-weird.txt" if False else "in"]), out=ref_out)
        if single:
            var("file output", canon, plain, out=r.choice(["", "sub/"]) + o.header_name())
            var("-out=-", canon + ["-out=-"], plain)
            var("-separate on stdout", canon + ["-separate"], plain)
        else:
            # the extension of the name is replaced
            base = os.path.splitext(o.header_name())[0]
            if (o.format or "c") not in ("minimal", "minimal-c++"):
                var("other extension", canon, plain, out=base + r.choice([".txt", "", ".c", ".cpp", ".h"]))
            var("separate in subdirectory", canon, plain, out="sub/" + o.header_name())
        var("/dev/stdin", canon, plain, inp="/dev/stdin", out=ref_out)
        var("linked input", canon, plain, inp="in.txt", out=ref_out, place="link")
        var("absolute names", canon, plain, inp="in.txt", out=ref_out, place="abs")
        var("environment", canon, plain, inp=r.choice(["-", "in.txt"]), out=ref_out, env=environment(r))
        var("CRLF", canon, plain.replace("\n", "\r\n"), out=ref_out)
        var("BOM", canon, b"\xef\xbb\xbf" + plain.encode(), out=ref_out)
        var("layout", canon, decl.layout(r, syms, True, 2, east=False), out=ref_out)
        var("layout2", canon, decl.layout(r, syms, True, 1, east=False, crlf=True), inp="in.txt", out=ref_out)
        for k in range(3):
            args = [a for n, v, _ in opts.shuffle_keep(r, its) for a in opts.spell(r, n, v)]
            if r.random() < 0.3:
                args = r.choice([["-force"], ["-ignore-options"]]) + args
            var("spelling", args, plain, out=ref_out)
        # options as %option lines: a kind moves as a whole so that order is kept
        kinds = {n for n, v, ok in its if ok and (v is None or not re.search(r"\s", v))}
        for k in range(4):
            all_ = k == 0
            moved = {n for n in kinds if all_ or r.random() < 0.5}
            lines = opts.option_lines(r, opts.shuffle_keep(r, [x for x in its if x[0] in moved]))
            rest = [a for n, v, _ in opts.shuffle_keep(r, [x for x in its if x[0] not in moved]) for a in opts.spell(r, n, v)]
            decls = [s.text() + ";" for s in syms]
            body = list(decls)
            for l in lines:
                body.insert(r.randint(0, len(body)) if r.random() < 0.5 else 0, None)
            # a line inside of a type block counts like any other
            lines = [r.choice(["struct nz {\n%s\n int a;\n};", "enum {\n NZ_A,\n%s\n NZ_B = 2\n};", "typedef union {\n struct { int a; } s;\n%s\n} nz_t;"]) % l if r.random() < 0.15 else l for l in lines]
            seq = iter(lines)
            text = "\n".join(next(seq) if b is None else b for b in body) + "\n"
            if r.random() < 0.25:
                text = text.replace("\n", "\r\n")
            data = text.encode()
            if r.random() < 0.2:
                data = b"\xef\xbb\xbf" + data
            extra = []
            if r.random() < 0.6:
                # the command line says something else: %option wins
                if "format" in moved:
                    extra += opts.spell(r, "format", r.choice(list(opts.FORMATS)))
                if "param" in moved:
                    extra += opts.spell(r, "param", r.choice(list(opts.PARAMS)))
                if "prefix" in moved:
                    extra += opts.spell(r, "prefix", "other")
                if "library" in moved:
                    extra += opts.spell(r, "library", "other.so")
            var("%option" + ("+override" if extra else ""), extra + rest, data, out=ref_out)
        # -ignore-options makes any %option line inert
        junk = r.choice(["%option format=plugin prefix=other line\n", "%option no-such-option\n", "%option param=bogus library=other.so D=X include=y.h\n", "%option no-pragma-once no-date line \\\n D=FOO\n", "%option D=\n"])
        var("-ignore-options", r.choice([["-ignore-options"] + canon, canon + ["--ignore-options"]]), r.choice([junk + plain, plain + junk, junk + plain + junk]), out=ref_out)
        if o.no_date:
            var("with date", [a for a in canon if a != "-no-date"], plain, out=ref_out, nodate=True)
        reqs.append(dict(i=i, o=o, V=V, plain=plain))

    def one(iv):
        i, j, v = iv
        w = os.path.join(root, "%d_%d" % (i, j))
        os.makedirs(w + "/sub")
        args = list(v["args"])
        absolute = w + "/" if v["place"] == "abs" else ""
        if v["out"]:
            args.append("-out=" + absolute + v["out"])
        data = v["data"]
        if v["inp"] not in ("-", "/dev/stdin"):
            real = v["inp"]
            if v["place"] == "link":
                real = "sub/real"
                os.symlink(real, os.path.join(w, v["inp"]))
            with open(os.path.join(w, real), "wb") as f:
                f.write(data)
        args.insert(len(args) if i % 2 else 0, absolute + v["inp"])
        v["argv"] = args
        res = tool.run(args, stdin=data if v["inp"] in ("-", "/dev/stdin") else b"", cwd=w, env=v["env"] or {})
        got = {}
        if v["out"]:
            sub = os.path.dirname(v["out"])
            for n in sorted(os.listdir(os.path.join(w, sub))):
                p = os.path.join(w, sub, n)
                if os.path.isfile(p) and n != v["inp"]:
                    got[n] = open(p, "rb").read()
        else:
            # the name the same output has in a file
            got[None] = res.out
        return res, got

    jobs = [(q["i"], j, v) for q in reqs for j, v in enumerate(q["V"])]
    results = pmap(one, jobs)
    by = {}
    for (i, j, v), x in zip(jobs, results):
        by[(i, j)] = x
    kinds = {}
    for q in reqs:
        i = q["i"]
        res0, got0 = by[(i, 0)]
        ident0 = sha(q["plain"] + repr(q["o"]))
        if res0.timeout:
            c.inconcl("timeout")
            continue
        if res0.rc != 0 or not any(got0.values()):
            c.violation("fails:" + ident0, "valid request fails: %s\n%s" % (q["o"], res0.text()), {"input.txt": q["plain"], "args.txt": repr(q["V"][0]["argv"])})
            continue
        ref = sorted(got0.values())
        for j, v in enumerate(q["V"][1:], 1):
            res, got = by[(i, j)]
            if res.timeout:
                c.inconcl("timeout")
                continue
            vals = sorted(got.values())
            if v["nodate"]:
                if not all(len(DATE.findall(b)) == 1 for b in vals):
                    vals = None
                else:
                    vals = sorted(DATE.sub(rb"\1.", b) for b in vals)
            ident = sha(ident0 + v["kind"] + repr(v["argv"]))
            same_names = True
            if len(q["V"][0]["out"] or "") and v["out"]:
                same_names = sorted(map(str, got)) == sorted(map(str, got0))
            if res.rc != 0 or vals != ref or not same_names:
                d = ""
                if res.rc == 0 and vals:
                    a, b = ref[0].split(b"\n"), vals[0].split(b"\n")
                    for x, y in zip(a, b):
                        if x != y:
                            d = "first difference: %r / %r" % (x[:200], y[:200])
                            break
                c.violation("%s:%s" % (v["kind"], ident), "%s changes the output\noptions %s\ncanonical args %s\nvariant args %s\n%s\nfiles %s / %s\n%s" % (
                    v["kind"], q["o"], q["V"][0]["argv"], v["argv"], d, sorted(map(str, got0)), sorted(map(str, got)), res.err[:300].decode("utf-8", "replace")),
                    {"canonical.txt": q["plain"], "variant.txt": v["data"], "args.txt": repr((q["V"][0]["argv"], v["argv"])), "a.out": b"".join(ref), "b.out": b"".join(sorted(got.values()))})
            c.case(ident)
            kinds[v["kind"]] = kinds.get(v["kind"], 0) + 1
        if i % 25 == 0:
            c.sample({"options": repr(q["o"])[:300], "variants": [(v["kind"], v["argv"][:8]) for v in q["V"][-4:]]})
    c.extra["comparisons_per_kind"] = kinds
