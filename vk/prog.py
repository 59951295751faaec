"""Differential programs: a library with observable behaviour for any declared symbols, and a client
that uses every symbol through its plain name and writes a trace (see DESIGN.md, R03)."""
import re
from .decl import Arr, Base, Fn, Ptr, Spec, Sym, decl, gen_decls

INTS = {"char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "unsigned", "long", "unsigned long", "long long",
        "unsigned long long", "long unsigned int", "short int", "long int", "signed", "vk_byte", "vk_long"}
FLOATS = {"float", "double", "long double"}
ENUMS = {"vk_en", "enum vk_en"}
PAIRS = {"vk_pair", "struct vk_pair"}
UNIS = {"union vk_uni"}
PTRS = {"vk_handle", "vk_str"}
CB = Ptr(Fn(Base("int"), [(Base("int"), None), (Ptr(Base("char", ("const",))), None)]))


def bare(t):
    """without top-level qualifiers, arrays as pointers (as a parameter or value)"""
    if isinstance(t, Arr):
        return Ptr(t.of)
    if isinstance(t, Ptr):
        return Ptr(t.to)
    return Base(t.name)


def is_fptr(t):
    return isinstance(t, Ptr) and isinstance(t.to, Fn) or isinstance(t, Base) and t.name == "vk_cb"


def fn_of(t):
    return t.to if isinstance(t, Ptr) else CB.to


def is_void(t):
    return isinstance(t, Base) and t.name == "void"


def elem(t):
    while isinstance(t, Arr):
        t = t.of
    return t


def is_const(t):
    return "const" in elem(t).quals


def is_volatile(t):
    return "volatile" in elem(t).quals


def put(t, e):
    """statement that logs value e of type t"""
    if isinstance(t, Arr):
        t = Ptr(t.of)
    if is_fptr(t):
        return "zzr_i((%s) != 0);" % e
    if isinstance(t, Ptr) or t.name in PTRS:
        return "zzr_p((const void *)(%s));" % e
    if t.name in INTS or t.name in ENUMS:
        return "zzr_i((long long)(%s));" % e
    if t.name in FLOATS:
        return "zzr_f((long double)(%s));" % e
    if t.name in PAIRS:
        return "zzr_i((%s).a); zzr_f((long double)(%s).b);" % (e, e)
    if t.name in UNIS:
        return "zzr_i((%s).i);" % e
    raise ValueError(t.name)


def init(t, n, cb=None):
    """initialiser of a value of (unqualified) type t"""
    if is_fptr(t):
        return cb or "0"
    if isinstance(t, Ptr) or t.name in PTRS:
        return "(%s)(void *)(zzr_pool + %d)" % (decl(bare(t), ""), n * 16 % 8000)
    if t.name in INTS:
        return "(%s)%d" % (t.name, n % 100 + 3)
    if t.name in ENUMS:
        return "(%s)%d" % (t.name, n % 2)
    if t.name in FLOATS:
        return "(%s)%d.25" % (t.name, n % 1000)
    if t.name in PAIRS:
        return "{ %d, %d.5 }" % (n, n + 1)
    if t.name in UNIS:
        return "{ %d }" % n
    raise ValueError(t.name)


class Gen:
    """One program."""

    def __init__(self, r, syms):
        self.r, self.syms = r, syms
        self.seed = r.randrange(1, 50)
        self.cbs = []

    def next(self):
        self.seed += 1 + self.seed % 5
        return self.seed % 480 + 1

    def logging_fn(self, what, name, f, cname, static=True, call_cbs=False, cb_source=None):
        """definition of a function that logs its arguments and returns a value"""
        params = [(t, "zz_p%d" % i) for i, (t, _) in enumerate(f.params)]
        head = decl(Fn(f.ret, params, f.variadic), cname)
        o = [("static " if static else "") + head + " {", '  zzr_begin("%s", "%s");' % (what, name)]
        o += ["  " + put(t, n) for t, n in params]
        if f.variadic:
            o += ["  { va_list zz_ap; va_start(zz_ap, %s);" % params[-1][1], "    zzr_i(va_arg(zz_ap, int)); zzr_f(va_arg(zz_ap, double)); zzr_p(va_arg(zz_ap, const char *)); zzr_i(va_arg(zz_ap, long long)); va_end(zz_ap); }"]
        o.append("  zzr_end();")
        if call_cbs:
            for t, n in params:
                if is_fptr(t):
                    o.append("  if (%s) {" % n)
                    o += ["    " + l for l in self.call(n, fn_of(t), "cbret", name)]
                    o.append("  }")
        if not is_void(f.ret):
            cb = None
            if is_fptr(f.ret):
                cb = cb_source
            o.append("  %s = %s; return zz_rv;" % (decl(bare(f.ret), "zz_rv"), init(bare(f.ret), self.next(), cb)))
        o.append("}")
        return o

    def args(self, f, once=False):
        """-> (local declarations, argument expressions)"""
        pre, ex = [], []
        for i, (t, _) in enumerate(f.params):
            b = bare(t)
            cb = None
            if is_fptr(b) and self.cbs is not None and self.r.random() < 0.85:
                cb = self.callback(fn_of(b))
            pre.append("%s = %s;" % (decl(b, "zz_a%d" % i), init(b, self.next(), cb)))
            e = "zz_a%d" % i
            if once and isinstance(b, Base) and b.name == "int" and self.r.random() < 0.7:
                e, once = "zzr_once(%s)" % e, False
            ex.append(e)
        if f.variadic:
            k = self.next()
            pre += ["int zz_v1 = %d; double zz_v2 = %d.75; const char *zz_v3 = (const char *)zzr_pool + %d; long long zz_v4 = %dLL << 33;" % (k, k, k * 16, k)]
            ex += ["zz_v1", "zz_v2", "zz_v3", "zz_v4"]
        return pre, ex

    def call(self, ref, f, what, name, once=False):
        pre, ex = self.args(f, once)
        o = ["{"] + ["  " + p for p in pre]
        c = "%s(%s)" % (ref, ", ".join(ex))
        if is_void(f.ret):
            o.append("  %s;" % c)
            o.append('  zzr_begin("%s", "%s"); zzr_end();' % (what, name))
        else:
            o.append("  %s = %s;" % (decl(bare(f.ret), "zz_r"), c))
            o.append('  zzr_begin("%s", "%s"); %s zzr_end();' % (what, name, put(f.ret, "zz_r")))
            if is_fptr(f.ret):
                o.append('  if (zz_r) { zzr_begin("rcb", "%s"); zzr_i(zz_r(%d, (const char *)zzr_pool)); zzr_end(); }' % (name, self.next()))
        o.append("}")
        return o

    def callback(self, f):
        k = len(self.cbs)
        self.cbs.append(None)
        n = "zz_cb%d" % k
        self.cbs[k] = self.logging_fn("cb", "#%d" % k, f, n)
        return n

    # -------------------------------------------------------------- library
    def library(self):
        hold, self.cbs = self.cbs, None
        o = ['#include "zzrt.h"', "static int zz_ownlib(int a, const char *b) { zzr_begin(\"libcb\", \"x\"); zzr_i(a); zzr_p(b); zzr_end(); return a * 2; }"]
        ctor, dump, mut = [], [], []
        for i, s in enumerate(self.syms):
            if s.is_func:
                if s.name in CUSTOM:
                    o += CUSTOM[s.name][1]
                else:
                    o += self.logging_fn("call", s.name, s.type, s.name, static=False, call_cbs=True, cb_source="zz_ownlib")
            else:
                t = s.type
                if isinstance(t, Arr) and t.n is None:
                    t = Arr(t.of, 3)
                if is_fptr(t) and isinstance(t, Ptr):
                    o += self.logging_fn("fptr", s.name, t.to, "zz_fp_" + s.name, cb_source="zz_ownlib")
                    o.append("%s = zz_fp_%s;" % (decl(t, s.name), s.name))
                else:
                    if is_const(t):
                        o.append("%s = %s;" % (decl(t, s.name), self.const_init(t)))
                    else:
                        o.append(decl(t, s.name) + ";")
                        for e, et in elements(t, s.name):
                            b = bare(et)
                            v = init(b, self.next(), "zz_ownlib")
                            ctor.append(assign(e, et, v))
                            mut.append((i, assign(e, et, init(b, self.next(), "zz_ownlib"))))
                for e, et in elements(t, s.name):
                    dump.append((i, put(et, e)))
            ctor.append("zzr_addr[%d] = (const void *)%s%s;" % (i, "" if s.is_func else "&", s.name))
        o.append("static void zz_dump(int i, int m) {\n  if (m) switch (i) {")
        for k in range(len(self.syms)):
            l = [x for j, x in mut if j == k]
            if l:
                o.append("  case %d: %s break;" % (k, " ".join(l)))
        o.append("  default: break; }\n  zzr_begin(m ? \"mutated\" : \"dump\", \"#\"); zzr_i(i);\n  switch (i) {")
        for k in range(len(self.syms)):
            l = [x for j, x in dump if j == k]
            if l:
                o.append("  case %d: %s break;" % (k, " ".join(l)))
        o.append("  default: break; }\n  zzr_end();\n}")
        o.append("__attribute__((constructor)) static void zz_ctor(void) {\n  zzr_dump = zz_dump;\n  " + "\n  ".join(ctor) + "\n}")
        self.cbs = hold
        return "\n".join(o) + "\n"

    def const_init(self, t):
        if isinstance(t, Arr):
            return "{ " + ", ".join(self.const_init(t.of) for _ in range(t.n)) + " }"
        b = bare(t)
        if isinstance(b, Ptr) or b.name in PTRS or b.name == "vk_cb":
            return "0"
        return init(b, self.next())

    # -------------------------------------------------------------- client
    def client(self, ref, wrapped=False, funcs_only=False):
        """statements using every symbol (or function); ref: symbol -> text that names it"""
        cbs, parts = self.client_parts(ref, wrapped, funcs_only)
        return cbs, "\n".join("  " + l for _, p in parts for l in p)

    def client_parts(self, ref, wrapped=False, funcs_only=False):
        """-> (text of callback functions, [(symbol number, statements)])"""
        parts = []
        state = self.r.getstate(), self.seed
        self.cbs = []
        order = [i for i, s in enumerate(self.syms) if s.is_func or not funcs_only]
        for i in order:
            s = self.syms[i]
            x = ref(s)
            body = ["/* %s */" % s.name]
            parts.append((i, body))
            if s.name in CUSTOM and CUSTOM[s.name][2]:
                body += CUSTOM[s.name][2](ref, self.syms)
                continue
            if s.is_func:
                f = s.type
                body += self.call(x, f, "ret", s.name, once=not f.variadic)
                body += self.call(x, f, "ret2", s.name)
                k, fv = self.r.randrange(3), None
                if not f.variadic:
                    p = decl(Ptr(Fn(f.ret, f.params, f.variadic)), "zz_fp")
                    fv = ["{ %s = %s;" % (p, x)] + self.call("zz_fp", f, "viaptr", s.name)
                    fv += ['zzr_begin("addr", "%s"); zzr_i(%s); zzr_end(); }' % (s.name, "1" if wrapped else "(const void *)zz_fp == zzr_addr[%d]" % i)]
                    body += fv
                    body += self.call("(%s)" % x, f, "paren", s.name)
                    if k == 0:
                        body += self.call("(*%s)" % x, f, "deref", s.name)
                    elif k == 1 and not is_void(f.ret):
                        pre, ex = self.args(f)
                        e = "%s(%s)" % (x, ", ".join(ex))
                        body += ["{"] + pre + ["  %s = zzr_once(1) ? %s : %s;" % (decl(bare(f.ret), "zz_r"), e, e), '  zzr_begin("cond", "%s"); %s zzr_end(); }' % (s.name, put(f.ret, "zz_r"))]
                else:
                    self.r.random()
                continue
            t = s.type
            full = t
            if isinstance(t, Arr) and t.n is None:
                full = Arr(t.of, 3)
            els = list(elements(full, x))
            reads = lambda w: ['zzr_begin("%s", "%s"); %s zzr_end();' % (w, s.name, " ".join(put(et, e) for e, et in els))]
            body += reads("read")
            body.append('zzr_begin("addr", "%s"); zzr_i((const void *)&%s == zzr_addr[%d]); zzr_end();' % (s.name, x, i))
            if full is t:
                body.append('zzr_begin("size", "%s"); zzr_i((long long)sizeof(%s)); zzr_end();' % (s.name, x))
            if isinstance(t, Arr):
                body.append('zzr_begin("decay", "%s"); zzr_i((const void *)(%s + 1) == (const void *)&%s[1]); zzr_end();' % (s.name, x, x))
            if isinstance(t, Ptr) and isinstance(t.to, Fn):
                body += self.call(x, t.to, "fptrcall", s.name)
                if not is_const(t):
                    body.append("%s = %s;" % (x, self.callback(t.to)))
                    body += self.call(x, t.to, "fptrset", s.name)
                    body += ["zzr_dump(%d, 0);" % i]
                continue
            if not is_const(t):
                for e, et in els:
                    if is_volatile(et) and isinstance(et, Base) and et.name in PAIRS | UNIS:
                        continue
                    body.append(client_assign(e, et, init(bare(et), self.next(), self.callback(fn_of(et)) if is_fptr(et) else None)))
                body.append("zzr_dump(%d, 0);" % i)
                body += reads("reread")
                e, et = els[-1]
                if isinstance(et, Base) and et.name in INTS | FLOATS:
                    body += ["%s++; ++%s; %s += 2; %s = (%s)(%s * 2 + 1); %s -= 1;" % (e, e, e, e, et.name, e, e), "zzr_dump(%d, 0);" % i]
                elif isinstance(et, Base) and et.name in PAIRS:
                    body += ["%s.a = %d; %s.b += 1.5; %s.a++; { %s *zz_q = &%s; zz_q->a += 3; }" % (e, self.next(), e, e, decl(et, ""), e), "zzr_dump(%d, 0);" % i]
                elif isinstance(et, Base) and et.name in UNIS:
                    body += ["%s.i = %d;" % (e, self.next()), "zzr_dump(%d, 0);" % i]
                body.append("zzr_dump(%d, 1);" % i)
                body += reads("mutated")
            else:
                self.next()
        cbs = [l for c in self.cbs for l in c]
        self.r.setstate(state[0])
        self.seed = state[1]
        return "\n".join(cbs), parts


def elements(t, e):
    if isinstance(t, Arr):
        for i in range(t.n):
            yield from elements(t.of, "%s[%d]" % (e, i))
    else:
        yield e, t


def assign(e, t, v):
    b = bare(t)
    if v.startswith("{"):
        return "{ %s = %s; %s = zz_t; }" % (decl(b, "zz_t"), v, e)
    return "%s = %s;" % (e, v)


client_assign = assign


def hooks(g, syms):
    """hook macros and the functions they call"""
    o, d = [], []
    for i, s in enumerate(syms):
        if s.is_func:
            f = s.type
            o += g.logging_fn("hook", s.name, Fn(Base("void"), f.params, f.variadic), "zz_hook%d" % i)
            d.append("#define GDO_HOOK_%s(...) zz_hook%d(__VA_ARGS__)" % (s.name, i))
    return "\n".join(o), "\n".join(d)


# ------------------------------------------------------------------ fixed symbols every set may have
def _sum(ref, syms):
    x = ref(next(s for s in syms if s.name == "vkz_add"))
    return ['{ int zz_q = %s(%s(1, zzr_once(3)), 5); zzr_begin("nested", "vkz_add"); zzr_i(zz_q); zzr_end(); }' % (x, x),
            "{ int zz_n = 5; int zz_m = %s(zz_n++, 1); zzr_begin(\"side\", \"vkz_add\"); zzr_i(zz_n); zzr_i(zz_m); zzr_end(); }" % x,
            "for (int zz_i = 0; zz_i < 3; zz_i++) if (%s(zz_i, zz_i) > 1) { zzr_begin(\"loop\", \"vkz_add\"); zzr_i(zz_i); zzr_end(); } else zzr_once(zz_i);" % x,
            "{ int zz_s[3] = { %s(1, 1), 4, 0 }; zz_s[%s(1, 1)] = -7; zzr_begin(\"index\", \"vkz_add\"); zzr_i(zz_s[0]); zzr_i(zz_s[1]); zzr_i(zz_s[2]); zzr_end(); }" % (x, x),
            "switch (%s(2, 2)) { case 4: zzr_once(4); break; default: zzr_once(5); } if (zzr_once(0) && %s(1, 1)) zzr_once(6); zzr_once(!%s(0, 0)); zzr_once((int)sizeof(%s(1, 1)));" % (x, x, x, x)]


def _apply(ref, syms):
    x = ref(next(s for s in syms if s.name == "vkz_apply"))
    y = ref(next(s for s in syms if s.name == "vkz_cb"))
    return ['{ int zz_q = %s(%s, 4); zzr_begin("apply", "x"); zzr_i(zz_q); zzr_end(); }' % (x, y)]


def _cb(ref, syms):
    x = ref(next(s for s in syms if s.name == "vkz_cb"))
    return ['{ int zz_q = %s(zzr_once(6), (const char *)zzr_pool + 32); zzr_begin("plain", "vkz_cb"); zzr_i(zz_q); zzr_end(); }' % x]


def _text(ref, syms):
    x = ref(next(s for s in syms if s.name == "vkz_text"))
    return ['zzr_begin("text", "x"); zzr_i(%s[1]); zzr_i(*%s); zzr_i(%s[0] == *(%s + 0)); zzr_end();' % (x, x, x, x), "%s++;" % x, 'zzr_begin("text2", "x"); zzr_i(*%s); zzr_i(*%s++); zzr_i(%s[-1]); zzr_end();' % (x, x, x),
            "%s = (char *)zzr_pool + 64; %s[0] = 'Q'; *(%s + 1) = 'R';" % (x, x, x), 'zzr_begin("text3", "x"); zzr_i(zzr_pool[64]); zzr_i(zzr_pool[65]); zzr_p(%s); zzr_end();' % x]


CUSTOM = {
    "vkz_add": (Sym("vkz_add", Fn(Base("int"), [(Base("int"), "a"), (Base("int"), "b")])), ['int vkz_add(int a, int b) { zzr_begin("call", "vkz_add"); zzr_i(a); zzr_i(b); zzr_end(); return a + b; }'], None),
    "vkz_apply": (Sym("vkz_apply", Fn(Base("int"), [(Base("vk_cb"), "f"), (Base("int"), "n")])), ['int vkz_apply(vk_cb f, int n) { zzr_begin("call", "vkz_apply"); zzr_i(f != 0); zzr_i(n); zzr_end(); return f(n, (const char *)zzr_pool + 48) + 1; }'], _apply),
    "vkz_cb": (Sym("vkz_cb", Fn(Base("int"), [(Base("int"), "n"), (Ptr(Base("char", ("const",))), "s")])), ['int vkz_cb(int n, const char *s) { zzr_begin("call", "vkz_cb"); zzr_i(n); zzr_p(s); zzr_end(); return n * 10; }'], _cb),
    "vkz_text": (Sym("vkz_text", Ptr(Base("char"))), None, _text),
}
CUSTOM["vkz_add"] = CUSTOM["vkz_add"][:2] + (_sum,)


def usable(s):
    """by-value volatile structures cannot be copied in C++"""
    def bad(t, param):
        if isinstance(t, Fn):
            return bad(t.ret, False) or any(bad(p, True) for p, _ in t.params)
        if isinstance(t, Ptr):
            return isinstance(t.to, Fn) and bad(t.to, False)
        if isinstance(t, Arr):
            return False
        return "volatile" in t.quals and t.name in PAIRS | UNIS and param
    return not bad(s.type, not s.is_func)


def symbols(r, custom=True, spec=None, n=None):
    spec = spec or Spec(nsyms=n or (2, 14), styles=True)
    syms = []
    while not syms:
        syms = [s for s in gen_decls(r, spec) if usable(s)]
    if custom:
        syms += [CUSTOM[k][0] for k in ("vkz_add", "vkz_apply", "vkz_cb", "vkz_text")]
        r.shuffle(syms)
    return [s for s in syms if s.is_func] + [s for s in syms if not s.is_func]
