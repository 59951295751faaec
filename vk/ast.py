"""Real clang AST dumps of generated headers."""
import os, subprocess
from . import decl
from .core import HarnessError, run

CLANG = "clang"


def header_text(syms, repeat=(), east=False):
    """A compilable header that declares syms; repeat: indices declared twice."""
    o = [decl.PRELUDE]
    for i, s in enumerate(syms):
        o.append("extern " + s.text(True, False) + ";")
        if i in repeat:
            o.append("extern " + s.text(False, False) + ";")
    return "\n".join(o) + "\n"


def dump(path, text, color, lang="c"):
    """Text AST dump of `text` as clang prints it. None if clang rejects the header."""
    with open(path, "w") as f:
        f.write(text)
    # clang 18's C front end; "gnu17" keeps f() a function without prototype
    r = run([CLANG, "-x", lang, "-w", "-std=gnu17", "-fsyntax-only", "-Xclang", "-ast-dump",
             "-fcolor-diagnostics" if color else "-fno-color-diagnostics", path], timeout=120)
    if r.timeout:
        raise HarnessError("clang timed out")
    if r.rc != 0:
        return None
    return r.out
