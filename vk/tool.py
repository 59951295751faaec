"""Builds the generator from REPO's working tree and runs it."""
import glob, os
from .core import REPO, HarnessError, pmap, run, run2

FLAVOURS = {
    # name: (cxx, cc, flags)
    "plain": ("g++", "gcc", ["-O1"]),
    "asan": ("clang++", "clang", ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                                   "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]),
    "asan-gcc": ("g++", "gcc", ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                                 "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]),
}
ASAN_ENV = {"ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1",
            "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98"}


def templates_cpp(c):
    """templates_data.cpp, made the way the build makes it."""
    d = c.mkdir("gen")
    out = os.path.join(d, "templates_data.cpp")
    if os.path.exists(out):
        return out
    src = os.path.join(REPO, "src")
    r = run(["gcc", "-O1", "-o", d + "/gtd", src + "/gen_templates_data.c"], timeout=300)
    if r.rc != 0:
        raise HarnessError("cannot compile gen_templates_data.c:\n" + r.text())
    r = run([d + "/gtd", src + "/templates", out], timeout=60)
    if r.rc != 0 or not os.path.exists(out):
        raise HarnessError("gen_templates_data failed:\n" + r.text())
    return out


def build(c, flavour="plain"):
    cxx, cc, flags = FLAVOURS[flavour]
    src = os.path.join(REPO, "src")
    tpl = templates_cpp(c)
    d = c.mkdir("build-" + flavour)
    jobs = []
    for f in sorted(glob.glob(src + "/*.cpp")):
        jobs.append([cxx, "-std=gnu++23" if cxx == "g++" else "-std=gnu++2b"] + flags + ["-w", "-DHAVE_PROGRAM_INVOCATION_SHORT_NAME", "-I" + src,
                     "-c", f, "-o", os.path.join(d, os.path.basename(f) + ".o")])
    jobs.append([cc] + flags + ["-w", "-I" + src, "-c", src + "/lex.yy.c", "-o", d + "/lex.o"])
    # the big table is compiled without instrumentation: it is data only
    jobs.append(["g++" if flavour == "plain" else cxx, "-std=gnu++20", "-O0", "-w", "-I" + src, "-c", tpl, "-o", d + "/tpl.o"])
    jobs.sort(key=lambda j: not ("tpl.o" in j[-1] or "options" in j[-3]))
    for r in pmap(lambda j: run(j, timeout=600), jobs):
        if r.rc != 0:
            raise HarnessError("tool does not compile (%s):\n%s" % (flavour, r.text(3000)))
    exe = os.path.join(d, "gendlopen")
    r = run([cxx] + [f for f in flags if f.startswith("-fsan")] + [j[-1] for j in jobs] + ["-o", exe], timeout=300)
    if r.rc != 0:
        raise HarnessError("tool does not link (%s):\n%s" % (flavour, r.text(3000)))
    return exe


class Tool:
    """The generator binary of one flavour."""

    def __init__(self, c, flavour="plain"):
        self.c, self.flavour = c, flavour
        self.exe = build(c, flavour)
        self.env = dict(ASAN_ENV) if flavour.startswith("asan") else {}

    def run(self, args, stdin=b"", cwd=None, **kw):
        env = dict(self.env)
        env.update(kw.pop("env", {}))
        self.c.count("tool_runs")
        return run2([self.exe] + list(args), stdin=stdin, cwd=cwd, env=env, **kw)
