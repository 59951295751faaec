"""Random option sets and their equivalent spellings."""
FORMATS = {"c": ["c", "C"], "c++": ["c++", "C++", "cxx", "cpp", "CXX", "Cpp"], "minimal": ["minimal", "minimal-c", "Minimal-C", "MINIMAL"],
           "minimal-c++": ["minimal-c++", "minimal-cxx", "minimal-cpp", "Minimal-C++"], "plugin": ["plugin", "plugin-c", "Plugin", "PLUGIN-C"]}
PARAMS = {"read": ["read", "READ", "Read"], "skip": ["skip", "Skip", "SKIP"], "create": ["create", "Create", "CREATE"]}
LIBS = ["libfoo.so.1", "foo", "nq:LIBNAME", "NQ:LIB_MACRO", "ext:libfoo", "Ext:foo", "api:2:foo", "API:0:bar-baz", "api:12:a.b", '"quoted.so"', "/opt/l-i.b/x_y.so.3", "../rel/lib.so", "é.so", "n", "nq", "ext", "api:nothing",
        "noise", "extra", "apix", "N:x", "lib=1.so"]
DEFS = ["FOO", "BAR=1", "BAZ=\"str\"", "QUX=", "A_B=(1+2)", "GDO_X=gdo", "EQ=a=b", "_u=0x7F"]
INCS = ["foo.h", "<bar.h>", "\"baz.h\"", "nq:MACRO_H", "a/b-c.h", "NQ:X", "<x", "y>", "é.h"]


class Opts:
    """One effective set of options."""

    def __init__(self):
        self.format, self.param, self.prefix, self.library = None, None, None, None
        self.defs, self.incs, self.line, self.no_pragma, self.separate, self.no_date = [], [], False, False, False, True
        self.P, self.S, self.force, self.ast_all = [], [], False, False

    def __repr__(self):
        return repr(self.__dict__)

    def header_name(self):
        cxx = self.format in ("c++", "minimal-c++")
        return (self.prefix or "gdo") + (".hpp" if cxx else ".h")


def gen(r, names=(), param="read", allow_prefix=0.1, allow_sel=0.3, separate=0.25):
    o = Opts()
    o.param = param
    if r.random() < 0.85:
        o.format = r.choice(list(FORMATS))
    if r.random() < allow_prefix:
        o.prefix = r.choice(["abc", "My_Lib", "X", "zz9", "Foo_", "_p", "gdo", "GDO", "Gdo"])
    if r.random() < 0.6:
        o.library = r.choice(LIBS)
    o.defs = [r.choice(DEFS) for _ in range(r.choice([0, 0, 1, 2, 3]))]
    o.incs = [r.choice(INCS) for _ in range(r.choice([0, 0, 1, 2, 3]))]
    o.line = r.random() < 0.4
    o.no_pragma = r.random() < 0.4
    o.separate = r.random() < separate
    if names and r.random() < allow_sel:
        o.S = [r.choice(names) for _ in range(r.randint(1, 3))]
        if r.random() < 0.4:
            o.P = [r.choice(names)[:4]]
    return o


def items(o):
    """[(option, value or None, may be an %option line)]"""
    l = []
    if o.format is not None:
        l.append(("format", o.format, True))
    if o.param is not None:
        l.append(("param", o.param, True))
    if o.prefix is not None:
        l.append(("prefix", o.prefix, True))
    if o.library is not None:
        l.append(("library", o.library, True))
    l += [("D", d, True) for d in o.defs]
    l += [("include", i, True) for i in o.incs]
    if o.line:
        l.append(("line", None, True))
    if o.no_pragma:
        l.append(("no-pragma-once", None, True))
    if o.no_date:
        l.append(("no-date", None, True))
    if o.separate:
        l.append(("separate", None, False))
    if o.force:
        l.append(("force", None, False))
    if o.ast_all:
        l.append(("ast-all-symbols", None, False))
    l += [("P", p, False) for p in o.P]
    l += [("S", s, False) for s in o.S]
    return l


def spell(r, name, val, canonical=False):
    """one option as command line arguments"""
    if canonical:
        if val is None:
            return ["-" + name]
        return ["-" + name + ("" if name in "DPS" else "=") + val]
    pre = "-" if len(name) == 1 or r.random() < 0.5 else "--"
    if val is None:
        return [pre + name]
    if name == "format":
        val = r.choice(FORMATS.get(val, [val]))
    elif name == "param":
        val = r.choice(PARAMS.get(val, [val]))
    if r.random() < 0.4 and val and not val.startswith("-"):
        return [pre + name, val]
    return [pre + name + ("" if name in "DPS" else "=") + val]


def shuffle_keep(r, its):
    """shuffle, keeping the relative order of repeated options"""
    idx = list(range(len(its)))
    r.shuffle(idx)
    res = [its[i] for i in idx]
    for n in ("D", "include", "P", "S"):
        seq = iter([x for x in its if x[0] == n])
        res = [next(seq) if x[0] == n else x for x in res]
    return res


def option_lines(r, its):
    """%option lines for (name, value) items; values without white space only"""
    toks = []
    for n, v, _ in its:
        if n == "format" and v:
            v = r.choice(FORMATS.get(v, [v]))
        if n == "param" and v:
            v = r.choice(PARAMS.get(v, [v]))
        toks.append(n if v is None else n + "=" + v)
    lines, cur = [], []
    for t in toks:
        cur.append(t)
        if r.random() < 0.4:
            lines.append(cur)
            cur = []
    if cur:
        lines.append(cur)
    return [("%option" + r.choice([" ", "\t", "  "]) + r.choice([" ", "  ", " \\\n ", "\t", " \\ \n\t"]).join(l) + r.choice(["", " ", "\t"])) for l in lines]
