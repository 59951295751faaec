"""Random C declarations: an independent model of symbols and types, plus hostile but
meaning-preserving layouts. Types are rendered by an ordinary C declarator printer that
shares nothing with the tool."""
import re

# Everything a generated declaration may refer to.
PRELUDE = """
struct vk_pair { int a; double b; };
union vk_uni { int i; float f; };
enum vk_en { VK_A, VK_B };
struct vk_opaque;
typedef struct vk_pair vk_pair;
typedef struct vk_opaque vk_opaque;
typedef enum vk_en vk_en;
typedef unsigned char vk_byte;
typedef vk_opaque *vk_handle;
typedef int (*vk_cb)(int, const char *);
typedef long vk_long;
typedef const char *vk_str;
"""

BASES = ["char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "unsigned",
         "long", "unsigned long", "long long", "unsigned long long", "float", "double", "long double",
         "long unsigned int", "short int", "long int", "signed",
         "vk_pair", "vk_opaque", "vk_en", "vk_byte", "vk_handle", "vk_cb", "vk_long", "vk_str"]
TAGGED = ["struct vk_pair", "union vk_uni", "enum vk_en", "struct vk_opaque"]
INCOMPLETE = {"vk_opaque", "struct vk_opaque"}


class T:
    pass


class Base(T):
    def __init__(self, name, quals=()):
        self.name, self.quals = name, tuple(quals)


class Ptr(T):
    def __init__(self, to, quals=()):
        self.to, self.quals = to, tuple(quals)


class Arr(T):
    def __init__(self, of, n):
        self.of, self.n = of, n


class Fn(T):
    def __init__(self, ret, params, variadic=False, void=True):
        # params: list of (type, name or None); void: spell an empty list as (void)
        self.ret, self.params, self.variadic, self.void = ret, params, variadic, void


def decl(t, name, east=False):
    """C declaration of `name` with type t."""
    d = name
    while True:
        if isinstance(t, Ptr):
            q = " ".join(t.quals)
            d = "*" + (q + " " if q and d else q) + d
            t = t.to
            if isinstance(t, (Arr, Fn)):
                d = "(" + d + ")"
        elif isinstance(t, Arr):
            d = d + "[" + ("" if t.n is None else str(t.n)) + "]"
            t = t.of
        elif isinstance(t, Fn):
            d = d + "(" + params_text(t, east) + ")"
            t = t.ret
        else:
            q = " ".join(t.quals)
            if east and q:
                head = t.name + " " + q
            else:
                head = (q + " " if q else "") + t.name
            return head + (" " + d if d else "")


def params_text(f, east=False, names=True):
    ps = [decl(t, (n or "") if names else "", east) for t, n in f.params]
    if f.variadic:
        ps.append("...")
    if not ps:
        return "void" if f.void else ""
    return ", ".join(ps)


class Sym:
    """One declared symbol."""
    def __init__(self, name, type_, style="plain"):
        self.name, self.type, self.style = name, type_, style
        self.is_func = isinstance(type_, Fn)

    def kind(self):
        if self.is_func:
            return "func"
        if isinstance(self.type, Arr):
            return "array"
        if isinstance(self.type, Ptr) and isinstance(self.type.to, Fn):
            return "fptr"
        return "object"

    def text(self, names=True, east=False):
        """Source spelling of the declaration, without `;'."""
        t = self.type
        if not names:
            t = strip_names(t)
        if self.is_func:
            if self.style == "paren":
                return decl(t, "(" + self.name + ")", east)
            if self.style == "paren2":
                return decl(t, "((" + self.name + "))", east)
            if self.style in ("aux1", "aux2"):
                # as printed by "gcc -aux-info": T (*name (params)) / T (**name (params))
                r = t.ret
                stars = 1 if self.style == "aux1" else 2
                for _ in range(stars):
                    r = r.to
                return decl(r, "", east).rstrip() + " (" + "*" * stars + self.name + " (" + params_text(t, east) + "))"
        elif self.style == "paren2" and self.kind() == "fptr":
            f = t.to
            return decl(f, "((*" + "".join(t.quals) + " " * bool(t.quals) + self.name + "))", east)
        return decl(t, self.name, east)

    def canon(self):
        return decl(self.type, self.name)


def strip_names(t):
    if isinstance(t, Fn):
        return Fn(strip_names(t.ret), [(strip_names(p), None) for p, _ in t.params], t.variadic, t.void)
    if isinstance(t, Ptr):
        return Ptr(strip_names(t.to), t.quals)
    if isinstance(t, Arr):
        return Arr(strip_names(t.of), t.n)
    return t


# ------------------------------------------------------------------ random types
WORDS = ["foo", "bar", "baz", "open", "close2", "get", "set", "init", "q", "x", "Value", "ctx", "lib", "read_all", "A", "Zz", "n0",
         "type_", "args_", "symbol_", "obj", "func", "structure", "enumerate", "typedefs", "unions", "externs", "void_", "const_", "param"]
PNAMES = ["a", "b", "c", "x", "y", "n", "p", "fmt", "len", "data", "self", "cb", "out", "flags", "a1", "a2", "name", "args", "type", "buf_",
          "value", "i", "j", "arg_with_a_rather_long_name", "_u", "X9", "structure", "enumval", "typedefd", "unionx", "externx", "voidp", "constant", "Void", "VOID"]


def quals(r, p=0.3):
    q = []
    if r.random() < p:
        q.append("const")
    if r.random() < p / 4:
        q.append("volatile")
    return q


def gen_base(r, tagged=True, complete=True, void=False):
    while True:
        if void and r.random() < 0.25:
            return Base("void")
        if tagged and r.random() < 0.15:
            n = r.choice(TAGGED)
        else:
            n = r.choice(BASES)
        if complete and n in INCOMPLETE:
            continue
        return Base(n)


def gen_scalar(r, tagged=True, maxptr=3, topconst=True):
    """base with 0..maxptr pointers and qualifiers on every level"""
    np = r.choice([0, 0, 0, 1, 1, 1, 2, 3][:5 + maxptr]) if maxptr else 0
    b = gen_base(r, tagged, complete=(np == 0), void=(np > 0))
    t = Base(b.name, quals(r, 0.4) if np else (quals(r, 0.2) if topconst else ()))
    for i in range(np):
        last = i == np - 1
        t = Ptr(t, quals(r, 0.2) if (topconst or not last) else ())
    return t


def gen_fn(r, depth=0, named=True, maxpar=6, variadic=True, tagged=True, fptr_params=True, array_params=True, ret=None):
    if ret is None:
        ret = Base("void") if r.random() < 0.25 else gen_scalar(r, tagged, topconst=False)
    n = r.choice([0, 0, 1, 1, 2, 2, 3, 3, 4, maxpar])
    params, used = [], set()
    for _ in range(n):
        nm = r.choice(PNAMES)
        while nm in used:
            nm = nm + r.choice("abcxyz_019")
        used.add(nm)
        k = r.random()
        if fptr_params and depth < 2 and k < 0.15:
            # the callback's own parameters may be named or not, whatever the mode
            t = Ptr(gen_fn(r, depth + 1, r.random() < 0.5, 3, True, tagged, fptr_params, array_params))
        elif array_params and k < 0.25:
            t = gen_scalar(r, tagged, 2)
            dims = r.choice([[None], [3], [4, 2], [None, 7], [1]])
            for d in reversed(dims):
                t = Arr(t, d)
        else:
            t = gen_scalar(r, tagged)
        params.append((t, nm if named else None))
    return Fn(ret, params, bool(params) and variadic and r.random() < 0.12, r.random() < 0.8)


def add_restrict(r, t, p=0.3):
    """sprinkle `restrict' over object pointers (C only)"""
    if isinstance(t, Fn):
        add_restrict(r, t.ret, p)
        for q, _ in t.params:
            add_restrict(r, q, p)
    elif isinstance(t, Ptr):
        if not isinstance(t.to, Fn) and r.random() < p:
            t.quals = t.quals + ("restrict",)
        add_restrict(r, t.to, p)
    elif isinstance(t, Arr):
        add_restrict(r, t.of, p)


class Spec:
    """What kinds of declarations to draw."""
    def __init__(self, **kw):
        self.named = True              # parameter names present
        self.variadic = True
        self.tagged = True             # struct/union/enum in types
        self.funcs, self.objects = True, True
        self.styles = True             # parenthesised names, aux-info spelling
        self.array_params = True
        self.fptr_params = True
        self.nsyms = (1, 12)
        self.incomplete_arrays = True
        self.const_objects = True
        self.__dict__.update(kw)


def gen_name(r, used, prefixes=None):
    while True:
        n = "_".join(r.choice(WORDS) for _ in range(r.choice([1, 1, 2, 2, 3])))
        if prefixes and r.random() < 0.8:
            n = r.choice(prefixes) + n
        else:
            n = r.choice(["vk_", "vk", "_vk", "VK", "vk_vk_", "v"]) + n
        if r.random() < 0.05:
            n += "_" + "x" * r.choice([30, 120, 200])
        if r.random() < 0.3:
            n += r.choice(["", "1", "2", "_", "__", "_2", "X"])
        if n not in used and n not in BASES and n not in ("vk_uni", "VK_A", "VK_B"):
            used.add(n)
            return n


def gen_sym(r, name, spec):
    kinds = []
    if spec.funcs:
        kinds += ["func"] * 6
    if spec.objects:
        kinds += ["object"] * 2 + ["array", "fptr"]
    k = r.choice(kinds)
    if k == "func":
        f = gen_fn(r, 0, spec.named, variadic=spec.variadic, tagged=spec.tagged,
                   fptr_params=spec.fptr_params, array_params=spec.array_params)
        s = Sym(name, f)
        _no_leading_tag(r, s)
        if spec.styles and r.random() < 0.2:
            s.style = r.choice(["paren", "paren2"])
            if isinstance(f.ret, Ptr) and not f.ret.quals and r.random() < 0.6:
                s.style = "aux1"
                if isinstance(f.ret.to, Ptr) and not f.ret.to.quals and r.random() < 0.6:
                    s.style = "aux2"
        return s
    if k == "fptr":
        f = gen_fn(r, 1, r.random() < 0.5, 4, spec.variadic, spec.tagged, spec.fptr_params, spec.array_params)
        s = Sym(name, Ptr(f))
        _no_leading_tag(r, s)
        if spec.styles and r.random() < 0.15:
            s.style = "paren2"
        return s
    t = gen_scalar(r, spec.tagged, topconst=spec.const_objects)
    if k == "array":
        dims = r.choice([[3], [16], [2, 3], [1, 2, 3]] + ([[None], [None, 4]] if spec.incomplete_arrays else []))
        for d in reversed(dims):
            t = Arr(t, d)
    s = Sym(name, t)
    _no_leading_tag(r, s)
    return s


def _no_leading_tag(r, s):
    """A declaration that begins with struct/union/enum is documented to be skipped as a type
    definition: such a base gets a leading qualifier instead."""
    t = s.type
    while not isinstance(t, Base):
        t = t.ret if isinstance(t, Fn) else (t.to if isinstance(t, Ptr) else t.of)
    if t.name.split()[0] in ("struct", "union", "enum") and not t.quals:
        t.quals = ("const",)


def gen_decls(r, spec=None, prefixes=None):
    spec = spec or Spec()
    used = set()
    n = r.randint(*spec.nsyms)
    return [gen_sym(r, gen_name(r, used, prefixes), spec) for _ in range(n)]


# ------------------------------------------------------------------ layout
TOK = re.compile(r"[A-Za-z0-9_]+|\.\.\.|[*(),\[\];]")


def plain_text(syms, names=True):
    return "".join(s.text(names) + ";\n" for s in syms)


COMMENT_BODY = ["", " ", "*", " text ", " int hidden(int a); ", ' "quoted ', " it's ", " %option format=bogus ", " // ", " #define X ", "\n", " a\n b ", "\n%option no-such-option\n",
                " { } = ; ", " @ $ ` ? ", " \\ ", "\n#include <x>\n", " é ", "** *", " / "]
LINE_COMMENT = ["", " x", " int hidden2(void);", ' "', " it's", " /* ", " */ ", " %option bogus", " #if", " { = }", " \\ x", " // //", " é"]


def comment(r):
    if r.random() < 0.6:
        # the delimiters may be spliced, too
        a, z = ("/*", "*/") if r.random() < 0.8 else r.choice([("/*", "*\\\n/"), ("/*", "*\\ \t\n/"), ("/\\\n*", "*/"), ("/*", "**\\\n/"), ("/\\\n*", "*\\\n/")])
        return a + "".join(r.choice(COMMENT_BODY) for _ in range(r.randint(0, 3))).replace("*/", "* /") + z
    s = ("//" if r.random() < 0.9 else "/\\\n/") + r.choice(LINE_COMMENT)
    if r.random() < 0.25:
        s += " \\" + r.choice(["", " ", "\t"]) + "\n" + r.choice(["", "", " int hidden3(int); ", " more"])
    return s + "\n"


def gap(r, need):
    """white space / comments between two tokens; need: at least one separator"""
    k = r.random()
    if k < 0.45:
        return " " if need or r.random() < 0.5 else ""
    if k < 0.6:
        return r.choice(["\n", "\t", "  ", "\n\n", " \n ", "\v", "\f", "\n\t"])
    if k < 0.75:
        return " " if need else ""
    if k < 0.9:
        # a comment separates tokens like a space does
        return comment(r)
    return r.choice([" ", "\n"]) + comment(r) + r.choice([" ", "\n", ""])


PRE_LINES = [
    "#include <stdio.h>\n", "#include \"foo.h\"\n", "# define FOO 1\n", "#\n", "#pragma once\n", "   #define BAR(a,b) int a; \\\n  int b\n",
    "#define BAZ /* c */ 1\n", "#define QUX 1 // int hidden4(void);\n", "#define STR \"int hidden5(void); /*\"\n", "#define CH '\"'\n",
    "#define URL \"http://x\"\n", "#define MULTI \\\n int hidden6(int); \\\n  int hidden7(int)\n", "#define Q /* a\n b */ int hidden8(void);\n",
    "#define EMPTYSPLIT \\\n\n", "#define E2 \\ \n more \\\t\n\n", "\t# undef FOO\n", "#define ESC \"\\\"/*\"\n", "#define S2 /\\\n* x */ hidden9\n",
    "#define PC /* int hidden11(void); *\\\n/ 1\n", "#define PD /\\\n* \" *\\ \n/ \\\n2\n",
    "#line 3 \"x.h\"\n", "#define D2 /\\\n/ int hidden10(void);\n",
]
BLOCKS = [
    "struct %s { int a; struct { int b; } c; };\n", "typedef struct %s_s { int (*fn)(int, ...); char x[4]; } %s_t;\n", "enum %s { %s_A = 1, %s_B = 2 };\n",
    "union %s { int a; float b; };\n", "typedef int %s;\n", "typedef int (*%s)(int, void *);\n", "struct %s;\n",
    "typedef\nenum { %s_X /* ; */ , %s_Y } /* } */ %s_t\n;\n", "typedef union { struct { int a[3]; enum { %s_Q } e; } s; } %s;\n",
]


def noise(r, allow_opt_comment=True):
    k = r.random()
    if k < 0.3:
        return comment(r) + r.choice(["\n", ""])
    if k < 0.65:
        return "\n" + r.choice(PRE_LINES)
    if k < 0.85:
        b = r.choice(BLOCKS)
        n = "nz%d" % r.randrange(10 ** 6)
        return b.replace("%s", n)
    if k < 0.9:
        return ";"
    return "\n" * r.randint(1, 4)


def layout(r, syms, names=True, level=2, bom=None, crlf=None, last_semi=None, east=True):
    """Render declarations with meaning-preserving noise (level 0: plain)."""
    if level == 0:
        return plain_text(syms, names)
    out = []
    for i, s in enumerate(syms):
        while r.random() < 0.35:
            out.append(noise(r))
        txt = s.text(names, east=r.random() < 0.3 and east)
        if txt.split()[0] in ("struct", "union", "enum"):
            txt = s.text(names)
        toks = TOK.findall(txt)
        if r.random() < 0.2:
            # storage class: the keyword may come after a type word, too
            toks.insert(0, "extern")
        line = ""
        prev = ""
        for t in toks:
            need = bool(prev) and (prev[-1].isalnum() or prev[-1] == "_") and (t[0].isalnum() or t[0] == "_")
            g = gap(r, need) if prev and level > 1 else (" " if need else "")
            if line.endswith("/") or (g.startswith("/") and line.endswith("/")):
                g = " " + g
            line += g + t
            prev = t
        out.append(line)
        last = i == len(syms) - 1
        semi = True if not last else (last_semi if last_semi is not None else r.random() < 0.8)
        if semi:
            out.append(gap(r, False) if level > 1 else "")
            out.append(";")
            out.append(r.choice(["\n", "\n", " ", "", "\n\n", "\r\n"]))
        elif r.random() < 0.5:
            out.append("\n")
    # trailing noise must not hold a ';' that the missing one would need; it may when present
    text = "".join(out)
    if r.random() < 0.3 and text.rstrip().endswith(";"):
        text += noise(r)
    if crlf if crlf is not None else r.random() < 0.15:
        text = text.replace("\r\n", "\n").replace("\n", "\r\n")
    b = text.encode("utf-8")
    if bom if bom is not None else r.random() < 0.1:
        b = b"\xef\xbb\xbf" + b
    return b


# ------------------------------------------------------------------ type oracle
def parse_print_symbols(out):
    """-print-symbols output -> (typedef lines, prototype lines, count) or None if malformed."""
    text = out.decode("utf-8", "replace")
    m = re.fullmatch(r"(?:/\* typedefs \*/\n((?:typedef .*;\n)+)\n)?/\* prototypes \*/\n((?:.*;\n)*)\n/\*\*\*  (\d+) matches  \*\*\*/\n", text)
    if not m:
        return None
    return ((m.group(1) or "").splitlines(), m.group(2).splitlines(), int(m.group(3)))


NAME_OF = re.compile(r"([A-Za-z0-9_]+)\s*(?:\(|;)")


def line_symbol(line):
    """name declared by one line of the prototype list (objects: last identifier; functions: the
    identifier before the parameter list)."""
    depth = 0
    # functions: the '(' that matches the final ')'
    s = line.rstrip().rstrip(";")
    if s.endswith(")"):
        for i in range(len(s) - 1, -1, -1):
            if s[i] == ")":
                depth += 1
            elif s[i] == "(":
                depth -= 1
                if depth == 0:
                    m = re.search(r"([A-Za-z0-9_]+)\s*$", s[:i])
                    return m.group(1) if m else None
    m = re.search(r"([A-Za-z0-9_]+)\s*$", s)
    return m.group(1) if m else None


def type_check_cpp(cases):
    """cases: list of (id, syms, typedef_lines, proto_lines). Returns C++ source whose compilation
    compares every printed type with the model's (attributed by #line)."""
    o = ["#define restrict __restrict__", "namespace vk { template<class A, class B> struct same { enum { v = 0 }; }; template<class A> struct same<A, A> { enum { v = 1 }; }; }", PRELUDE]
    for cid, syms, tds, protos in cases:
        o.append('#line 1 "%s"' % cid)
        o.append("namespace case_%s { namespace model {" % cid)
        o += ["extern %s;" % s.canon() for s in syms]
        o.append("} namespace got {")
        o += tds
        o += ["extern " + p for p in protos]
        o.append("}")
        for s in syms:
            o.append('static_assert(vk::same<decltype(model::%s), decltype(got::%s)>::v, "type of %s");' % (s.name, s.name, s.name))
        o.append("}")
    return "\n".join(o) + "\n"
