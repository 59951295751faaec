"""R13: the generated interface can be used from several threads."""
import os, re
from vk import gen
from vk.core import HarnessError, pmap, run2, sha
from vk.gen import HARNESS, Config
from vk.tool import Tool

TECHNIQUE = "race detection: ThreadSanitizer (gcc and clang) over threaded programs of generated interfaces with random delays; per thread monitors of results, load state, error text and path; the schedule that happened is recorded with relaxed tickets"
LEVEL_NOTE = "exploration: real schedules of up to 8 threads over several interfaces per program (all formats, wrapper and automatic loading variants); races are found from the absence of ordering between accesses, also when they did not collide in this run"
W, A, L = "GDO_WRAP_FUNCTIONS", "GDO_ENABLE_AUTOLOAD", "GDO_ENABLE_AUTOLOAD_LAZY"

VARIANTS = [
    dict(fmt="c"), dict(fmt="c", separate=True), dict(fmt="c", defs=["GDO_STATIC"], twice=True), dict(fmt="c", defs=[W], olevel="-O2"), dict(fmt="c", defs=[W], olevel="-O0"), dict(fmt="c", defs=[W, "GDO_STATIC"], twice=True), dict(fmt="c", defs=[W], separate=True, olevel="-O2"),
    dict(fmt="c", defs=[A]), dict(fmt="c", defs=[L]), dict(fmt="c", defs=[A], separate=True), dict(fmt="c", lang="c++"), dict(fmt="c", lang="c++", defs=[W]),
    dict(fmt="c++"), dict(fmt="c++", separate=True), dict(fmt="c++", defs=[W]), dict(fmt="c++", defs=[W], separate=True), dict(fmt="c++", defs=[A]), dict(fmt="c++", defs=[L]), dict(fmt="c++", defs=[L], separate=True),
    dict(fmt="minimal"), dict(fmt="minimal", defs=["GDO_STATIC"]), dict(fmt="minimal-c++"), dict(fmt="plugin"), dict(fmt="plugin", separate=True),
]

HDR = r'''
#ifndef THR_H
#define THR_H
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { int a; long b; } vkt_pair;
typedef struct {
  int id;                       /* thread */
  unsigned long rng, calls, queries, ops, bad;
} vkt_thr;
unsigned long vkt_rnd(vkt_thr *t);
void vkt_tick(vkt_thr *t);      /* records who ran, sometimes waits */
void vkt_bad(vkt_thr *t, const char *what, const char *detail);
struct vkt_iface {
  const char *name;
  int shared_ok;                                          /* number of threads with histories of their own */
  int (*load)(const char *fn);                            /* for everybody; main thread */
  int (*unload)(void);
  void (*use)(vkt_thr *t, int seed, int n);
  void (*hist)(vkt_thr *t, int n, const char *a, const char *b, const char *none);
};
#ifdef __cplusplus
}
#endif
#define MIX(h, v) ((h) = (h) * 1000003UL + (unsigned long)(v) + 17)
'''

MAIN = r'''
#define _GNU_SOURCE
#include "thr.h"
#include <dlfcn.h>
#include <pthread.h>
#include <unistd.h>
#include "ifaces.inc"
#define MAXT 1000000
static unsigned char who[MAXT];
static unsigned long ticket;
unsigned long vkt_rnd(vkt_thr *t) { t->rng ^= t->rng << 13; t->rng ^= t->rng >> 7; t->rng ^= t->rng << 17; return t->rng >> 11; }
void vkt_tick(vkt_thr *t)
{
  unsigned long n = __atomic_fetch_add(&ticket, 1, __ATOMIC_RELAXED);
  if (n < MAXT) who[n] = (unsigned char)t->id;
  unsigned long r = vkt_rnd(t) % 64;
  if (r == 0) usleep(vkt_rnd(t) % 300);
  else if (r < 4) sched_yield();
}
void vkt_bad(vkt_thr *t, const char *what, const char *detail)
{
  char b[600];
  int n = snprintf(b, sizeof(b), "MISMATCH thread %d: %s: %.300s\n", t->id, what, detail ? detail : "(null)");
  if (t->bad++ < 5 && write(2, b, (size_t)n) < 0) _exit(9);
}
typedef struct { vkt_thr t; int mode, rounds, lib, iface; unsigned hists; } job;
static pthread_barrier_t bar;
static void *body(void *p)
{
  job *j = (job *)p;
  pthread_barrier_wait(&bar);
  for (int i = 0; i < j->rounds; i++) {
    if (j->mode == 1) {
      int k = j->iface;
      ifaces[k]->hist(&j->t, 6, fnA[k], fnB[k], fnN[k]);
    } else {
      int k = (int)(vkt_rnd(&j->t) % NI);
      if (j->hists >> k & 1) continue;
      ifaces[k]->use(&j->t, 2 * k + (j->lib && !AUTO[k]), 4);
    }
  }
  return NULL;
}
int main(int argc, char **argv)
{
  if (argc != 6) return 9;
  int mode = atoi(argv[1]), nt = atoi(argv[2]), rounds = atoi(argv[3]), phases = atoi(argv[5]);
  unsigned long seed = strtoul(argv[4], NULL, 10), calls = 0, queries = 0, ops = 0, bad = 0, hand = 0, h = 0;
  static job j[64];
  /* mapped all the time: addresses are not used again for other data */
  for (int k = 0; k < NI; k++) if (!dlopen(fnA[k], RTLD_LAZY) || !dlopen(fnB[k], RTLD_LAZY)) { fprintf(stderr, "%s\n", dlerror()); return 9; }
  for (int ph = 0; ph < phases; ph++) {
    int n = 0, lib = ph & 1;
    unsigned hists = mode == 0 ? 0 : mode == 1 ? ~0U : (unsigned)(0x5a5a5a ^ (seed + (unsigned)ph) * 0x9e37);
    for (int k = 0; k < NI; k++) {
      if (hists >> k & 1) {
        for (int q = 0; q < ifaces[k]->shared_ok && n < 60; q++, n++) { j[n].mode = 1; j[n].iface = k; }
      }
    }
    for (int k = 0; k < NI; k++) if (!(hists >> k & 1)) {
      if (!ifaces[k]->load(lib ? fnB[k] : fnA[k])) { fprintf(stderr, "MISMATCH loading %s\n", ifaces[k]->name); return 1; }
    }
    if (mode != 1) for (int q = 0; q < nt; q++, n++) j[n].mode = 0;
    pthread_t th[64];
    pthread_barrier_init(&bar, NULL, (unsigned)n);
    for (int i = 0; i < n; i++) {
      j[i].t.id = i; j[i].rounds = rounds; j[i].lib = lib; j[i].hists = hists;
      j[i].t.rng = (seed + 1) * 2654435761UL + (unsigned long)(i + 64 * ph + 1) * 40503UL;
      if (pthread_create(&th[i], NULL, body, &j[i])) return 9;
    }
    for (int i = 0; i < n; i++) pthread_join(th[i], NULL);
    pthread_barrier_destroy(&bar);
    for (int k = 0; k < NI; k++) if (!(hists >> k & 1) && !ifaces[k]->unload()) { fprintf(stderr, "MISMATCH freeing %s\n", ifaces[k]->name); return 1; }
  }
  for (int i = 0; i < 64; i++) { calls += j[i].t.calls; queries += j[i].t.queries; ops += j[i].t.ops; bad += j[i].t.bad; }
  for (unsigned long i = 1; i < ticket && i < MAXT; i++) { hand += who[i] != who[i - 1]; h = h * 31 + who[i]; }
  printf("calls=%lu queries=%lu ops=%lu handovers=%lu ticks=%lu schedule=%lx\n", calls, queries, ops, hand, ticket, h);
  return bad != 0;
}
'''

SETUP = {
"c": r'''
static int zi_load(const char *fn) { return gdo_load_lib_name_and_symbols(fn) && gdo_all_symbols_loaded(); }
static int zi_unload(void) { return gdo_free_lib() && !gdo_lib_is_loaded() && gdo_no_symbols_loaded(); }
static void zi_query(vkt_thr *t, int full)
{
  t->queries++;
  if (!gdo_lib_is_loaded()) vkt_bad(t, "not loaded", "");
  if (full && (!gdo_all_symbols_loaded() || gdo_no_symbols_loaded())) vkt_bad(t, "symbols not loaded", "");
  if (!gdo_any_symbol_loaded()) vkt_bad(t, "no symbol loaded", "");
}
static int zh_load(vkt_thr *t, const char *fn, int want)
{
  int was = gdo_lib_is_loaded(), rv = gdo_load_lib_name(fn);
  const char *e = gdo_last_error();
  if (rv != (want && !was)) vkt_bad(t, "load", e);
  else if (rv && strcmp(e, "no error")) vkt_bad(t, "error text after success", e);
  else if (!rv && !was && !strstr(e, fn)) vkt_bad(t, "error text names another library", e);
  else if (was && !strstr(e, "already")) vkt_bad(t, "error text", e);
  if (!rv) return 0;
  if (vkt_rnd(t) % 2 && !gdo_load_symbol_name("ZFIRST")) vkt_bad(t, "symbol", gdo_last_error());
  if (!gdo_load_all_symbols()) vkt_bad(t, "all symbols", gdo_last_error());
  if (gdo_load_symbol_name("vkt_nope") || !strstr(gdo_last_error(), "vkt_nope")) vkt_bad(t, "unknown symbol", gdo_last_error());
  const char *p = gdo_library_path();
  if (!p || strcmp(strrchr(p, '/') ? strrchr(p, '/') : p, strrchr(fn, '/'))) vkt_bad(t, "path", p);
  return 1;
}
static void zh_free(vkt_thr *t)
{
  int was = gdo_lib_is_loaded();
  if (vkt_rnd(t) % 4 == 0) gdo_force_free_lib();
  else if (!gdo_free_lib()) vkt_bad(t, "free", gdo_last_error());
  if (gdo_lib_is_loaded() || gdo_any_symbol_loaded()) vkt_bad(t, "still loaded", "");
  if (was && gdo_library_path()) vkt_bad(t, "path without library", "");
}
''',
"c++": r'''
static gdo::dl &zi_dl() { static gdo::dl *o; if (!o) o = new gdo::dl(); return *o; }
static int zi_load(const char *fn) { return zi_dl().load(fn) && zi_dl().load_all_symbols(); }
static int zi_unload(void) { return zi_dl().free() && !gdo::dl::lib_loaded() && zi_dl().no_symbols_loaded(); }
static void zi_query(vkt_thr *t, int full)
{
  t->queries++;
  gdo::dl o("some.so");
  o.free_lib_in_dtor(false);
  if (!gdo::dl::lib_loaded()) vkt_bad(t, "not loaded", "");
  if (full && (!o.all_symbols_loaded() || o.no_symbols_loaded())) vkt_bad(t, "symbols not loaded", "");
  if (!o.any_symbol_loaded()) vkt_bad(t, "no symbol loaded", "");
  if (o.error() != "no error") vkt_bad(t, "error text", o.error().c_str());
  if (o.filename() != "some.so") vkt_bad(t, "file name", o.filename().c_str());
}
static int zh_load(vkt_thr *t, const char *fn, int want)
{
  gdo::dl o(fn);
  o.free_lib_in_dtor(false);
  bool was = gdo::dl::lib_loaded(), rv = o.load();
  std::string e = o.error();
  if (rv != (want && !was)) vkt_bad(t, "load", e.c_str());
  else if (rv && e != "no error") vkt_bad(t, "error text after success", e.c_str());
  else if (!rv && !was && e.find(fn) == std::string::npos) vkt_bad(t, "error text names another library", e.c_str());
  else if (was && e.find("already") == std::string::npos) vkt_bad(t, "error text", e.c_str());
  if (!rv) return 0;
  if (vkt_rnd(t) % 2 && !o.load_symbol("ZFIRST")) vkt_bad(t, "symbol", o.error().c_str());
  if (!o.load_all_symbols()) vkt_bad(t, "all symbols", o.error().c_str());
  if (o.load_symbol("vkt_nope") || o.error().find("vkt_nope") == std::string::npos) vkt_bad(t, "unknown symbol", o.error().c_str());
  std::string p = o.library_path();
  size_t s = p.rfind('/');
  if (s == std::string::npos || p.substr(s) != strrchr(fn, '/')) vkt_bad(t, "path", p.c_str());
  return 1;
}
static void zh_free(vkt_thr *t)
{
  gdo::dl o;
  if (vkt_rnd(t) % 4 == 0) o.free(true);
  else if (vkt_rnd(t) % 2) { if (!o.free()) vkt_bad(t, "free", o.error().c_str()); }
  else { gdo::dl x; }
  if (gdo::dl::lib_loaded() || o.any_symbol_loaded()) vkt_bad(t, "still loaded", "");
}
''',
"minimal": r'''
static int zi_load(const char *fn) { return gdo_load_library_and_symbols(fn) == NULL; }
static int zi_unload(void) { gdo_free_library(); return 1; }
static void zi_query(vkt_thr *t, int full) { (void)full; t->queries++; }
static int zh_load(vkt_thr *t, const char *fn, int want)
{
  const char *e = gdo_load_library_and_symbols(fn);
  if ((e == NULL) != want) vkt_bad(t, "load", e);
  return e == NULL;
}
static void zh_free(vkt_thr *t) { (void)t; gdo_free_library(); }
''',
"minimal-c++": r'''
static int zi_load(const char *fn) { try { gdo::load_library_and_symbols(fn); } catch (...) { return 0; } return 1; }
static int zi_unload(void) { gdo::free_library(); return 1; }
static void zi_query(vkt_thr *t, int full) { (void)full; t->queries++; }
static int zh_load(vkt_thr *t, const char *fn, int want)
{
  try { gdo::load_library_and_symbols(fn); if (!want) vkt_bad(t, "loaded", fn); return 1; }
  catch (const gdo::LibraryError &e) { if (want || strcmp(e.what(), fn)) vkt_bad(t, "exception", e.what()); }
  return 0;
}
static void zh_free(vkt_thr *t) { (void)t; gdo::free_library(); }
''',
"plugin": r'''
static gdo_plugin_t *zi_pl;
static int zi_load(const char *fn) { const char *f[] = { NULL, fn, "" }; zi_pl = gdo_load_plugins(f, 3); return zi_pl && zi_pl->list[1].handle; }
static int zi_unload(void) { gdo_release_plugins(zi_pl); zi_pl = NULL; return 1; }
static void zi_query(vkt_thr *t, int full) { (void)full; t->queries++; if (!zi_pl->list[1].handle || zi_pl->list[0].handle || zi_pl->num != 3) vkt_bad(t, "plugin list", ""); }
''',
}

HIST = r'''
static void zi_hist(vkt_thr *t, int n, const char *a, const char *b, const char *none)
{
  int cur = -1;
  for (int i = 0; i < n; i++) {
    vkt_tick(t);
    t->ops++;
    switch (vkt_rnd(t) % 5) {
    case 0: if (zh_load(t, none, 0)) vkt_bad(t, "loaded", none); ZAFTERBAD break;
    case 1: if (zh_load(t, a, 1)) cur = ZSEED; break;
    case 2: if (zh_load(t, b, 1)) cur = ZSEED + 1; break;
    case 3: if (cur >= 0) zi_use1(t, cur, 3); break;
    default: zh_free(t); cur = -1; break;
    }
  }
  if (cur >= 0) { zi_use1(t, cur, 2); zh_free(t); }
}
'''

HIST_PLUGIN = r'''
static void zi_hist(vkt_thr *t, int n, const char *a, const char *b, const char *none)
{
  for (int i = 0; i < n; i++) {
    const char *f[] = { a, none, b, NULL, a };
    vkt_tick(t);
    t->ops++;
    gdo_plugin_t *p = gdo_load_plugins(f, 5);
    if (!p || p->num != 5) { vkt_bad(t, "no list", ""); continue; }
    for (int k = 0; k < 5; k++) {
      if (!!p->list[k].handle != (k != 1 && k != 3)) vkt_bad(t, "plugin handle", f[k]);
      if (p->list[k].handle) zi_use1(t, ZSEED + (k == 2), 2, &p->list[k]);
      vkt_tick(t);
    }
    gdo_release_plugins(p);
  }
}
'''


class Fn:
    def __init__(self, r, name):
        self.name = name
        self.ret = r.choice("illudstv")
        k = r.randint(0, 5)
        self.args = [r.choice("ilubdstc") for _ in range(k)]
        if self.ret == "s":
            self.args.insert(0, "s")
        if self.ret == "v":
            self.args.append("o")
        self.var = r.random() < 0.2
        if self.var:
            self.args.append("i")

CT = {"i": "int", "l": "long", "u": "unsigned char", "b": "unsigned short", "d": "double", "s": "const char *", "t": "vkt_pair", "v": "void", "o": "int *", "c": "int (*%s)(int)"}
# what a value adds to the hash
HX = {"i": "%s", "l": "%s", "u": "%s", "b": "%s", "d": "(long)(%s * 8)", "s": "%s[0]", "t": "(unsigned long)%s.a * 3 + (unsigned long)%s.b", "o": "0", "c": "%s(7)"}
# a random value
RV = {"i": "(int)vkt_rnd(t)", "l": "(long)vkt_rnd(t)", "u": "(unsigned char)vkt_rnd(t)", "b": "(unsigned short)vkt_rnd(t)", "d": "(double)(vkt_rnd(t) % 100000) / 8"}


def parm(t, n):
    return CT[t] % n if t == "c" else CT[t] + (" " if CT[t][-1] != "*" else "") + n


def proto(f, names=True):
    ps = [parm(t, "p%d" % i if names else "") for i, t in enumerate(f.args)] + (["..."] if f.var else [])
    return "%s%s%s(%s)" % (CT[f.ret], "" if CT[f.ret][-1] == "*" else " ", f.name, ", ".join(ps) or "void")


def body(k, f, seed, va):
    o = ["unsigned long h = %s;" % seed, "MIX(h, %d);" % k]
    for i, t in enumerate(f.args):
        o.append("MIX(h, %s);" % HX[t].replace("%s", "p%d" % i))
    if f.var:
        # three further arguments
        o += (["va_list ap; va_start(ap, p%d); long v1 = va_arg(ap, long); double v2 = va_arg(ap, double); const char *v3 = va_arg(ap, const char *); va_end(ap);" % (len(f.args) - 1)] if va else []) + ["MIX(h, v1); MIX(h, (long)(v2 * 8)); MIX(h, v3[0]);"]
    o.append({"i": "return (int)h;", "l": "return (long)h;", "u": "return (unsigned char)(h >> 5);", "d": "return (double)(h % 1000000UL);", "s": "return p0 + h % 3;", "t": "vkt_pair q; q.a = (int)h; q.b = (long)(h * 3); return q;", "v": "*p%d = (int)h;" % (f.args.index("o") if f.ret == "v" else 0)}[f.ret])
    return " ".join(o)


def use_text(fns, objs, plugin, lazy, hook):
    """calls of every function with random values"""
    o = []
    for k, f in enumerate(fns):
        ps = ["int seed"] + [parm(t, "p%d" % i) for i, t in enumerate(f.args)] + (["long v1", "double v2", "const char *v3"] if f.var else [])
        o.append("static %s ze_%d(%s) { %s }" % (CT[f.ret], k, ", ".join(ps), body(k, f, "(unsigned long)seed", False)))
    o.append("static int zc_a(int x) { return x * 5 + 1; }\nstatic int zc_b(int x) { return x ^ 99; }")
    R = "gdo_handle_t *r" if plugin else ""
    o.append("ZONLY\nstatic void zi_use1(vkt_thr *t, int seed, int n%s)\n{\n  static const char *const texts[] = { \"alpha\", \"beta\", \"gamma\", \"delta\" };\n  (void)texts;\n  for (int i = 0; i < n; i++) {\n    vkt_tick(t);\n    t->calls++;\n    switch (vkt_rnd(t) %% (zz_only_functions ? %d : %d)) {" % (", " + R if R else "", len(fns), len(fns) + len(objs)))
    ref = (lambda n: "r->ptr." + n) if plugin else (lambda n: n)
    for k, f in enumerate(fns):
        b = []
        vals = []
        for i, t in enumerate(f.args):
            v = "x%d" % i
            if t == "s":
                b.append("const char *%s = texts[vkt_rnd(t) %% 4];" % v)
            elif t == "t":
                b.append("vkt_pair %s; %s.a = (int)vkt_rnd(t); %s.b = (long)vkt_rnd(t);" % (v, v, v))
            elif t == "c":
                b.append("int (*%s)(int) = vkt_rnd(t) %% 2 ? zc_a : zc_b;" % v)
            elif t == "o":
                b.append("int out1 = 0, out2 = 1; int *%s = &out1;" % v)
            else:
                b.append("%s %s = %s;" % (CT[t], v, RV[t]))
            vals.append(v)
        extra = []
        if f.var:
            b.append("long y1 = (long)vkt_rnd(t); double y2 = (double)(vkt_rnd(t) % 1000) / 8; const char *y3 = texts[vkt_rnd(t) % 4];")
            extra = ["y1", "y2", "y3"]
        call = "%s(%s)" % (ref(f.name), ", ".join(vals + extra))
        ex = "ze_%d(%s)" % (k, ", ".join(["seed"] + [("&out2" if f.args[i] == "o" else v) for i, v in enumerate(vals)] + extra))
        if f.ret == "v":
            b.append("%s; %s; if (out1 != out2) vkt_bad(t, \"result\", \"%s\");" % (call, ex, f.name))
        elif f.ret == "t":
            b.append("vkt_pair q1 = %s, q2 = %s; if (q1.a != q2.a || q1.b != q2.b) vkt_bad(t, \"result\", \"%s\");" % (call, ex, f.name))
        else:
            b.append("%s q1 = %s, q2 = %s; if (q1 != q2) vkt_bad(t, \"result\", \"%s\");" % (CT[f.ret], call, (ex), f.name) if f.ret != "s" else "const char *q1 = %s; const char *q2 = %s; if (q1 != q2) vkt_bad(t, \"result\", \"%s\");" % (call, ex, f.name))
        if f.name == hook:
            b.insert(0, "zz_hooked = 0;")
            b.append("if (zz_hooked != 1) vkt_bad(t, \"hook\", \"%s\");" % f.name)
        o.append("    case %d: { %s } break;" % (k, " ".join(b)))
    d = "(*r->ptr.%s)" if plugin else "%s"
    for k, n in enumerate(objs):
        e = d % n
        code = {"vkt_slots": "int s0 = %s[t->id]; %s[t->id] += 3; if (%s[t->id] != s0 + 3) vkt_bad(t, \"object\", \"vkt_slots\");" % (e, e, e),
                "vkt_name": "if (atoi(%s) != seed) vkt_bad(t, \"object\", %s);" % (e, e),
                "vkt_fp": "if (%s(9) != 9 + seed) vkt_bad(t, \"object\", \"vkt_fp\");" % e,
                "vkt_num": "if (%s != (long)seed * 77) vkt_bad(t, \"object\", \"vkt_num\");" % e}[n]
        o.append("    case %d: { %s } break;" % (len(fns) + k, "t->calls++;" if lazy else code))
    o.append("    }\n  }\n}")
    if plugin:
        o.append("static void zi_use(vkt_thr *t, int seed, int n) { zi_query(t, 1); zi_use1(t, seed, n, &zi_pl->list[1]); }")
    else:
        o.append("static void zi_use(vkt_thr *t, int seed, int n) { zi_query(t, %d); zi_use1(t, seed, n); }" % (not lazy))
    return "\n".join(o)


OBJ = {"vkt_slots": "int vkt_slots[256]", "vkt_name": "const char *vkt_name", "vkt_fp": "int (*vkt_fp)(int)", "vkt_num": "long vkt_num"}


def program(c, tool, r, k, cc):
    """one program of several interfaces"""
    w = c.mkdir("p%d" % k)
    open(w + "/thr.h", "w").write(HDR + "#endif\n")
    ni = r.randint(4, 7)
    vs = [dict(v) for v in r.sample(VARIANTS, ni)]
    for v in list(vs):
        if v.pop("twice", False):
            vs.append(dict(v, same=vs.index(v)))       # the same header, private in another source file
    insts, srcs = [], []
    fset = [Fn(r, "vkt_%s%d" % (r.choice(["a", "get", "x_"]), i)) for i in range(r.randint(4, 9))]
    osets = [r.sample(sorted(OBJ), r.randint(1, 4)) for _ in vs]
    libs = []
    for n, v in enumerate(vs):
        same = v.pop("same", None)
        cfg = Config(**v)
        cfg.cc, cfg.san = cc, "tsan"
        # names overlap between the interfaces: one set of functions, other sets of objects
        objs = osets[same if same is not None else n]
        seed = 2 * n
        pair = []
        for q in (0, 1):
            src = os.path.join(w, "lib%d%s.c" % (n, "ab"[q]))
            t = ['#include "thr.h"'] + ["%s { %s }" % (proto(f), body(i, f, "(unsigned long)%d" % (seed + q), True)) for i, f in enumerate(fset)]
            t += ["int vkt_slots[256];", 'const char *vkt_name = "%d";' % (seed + q), "static int fp(int x) { return x + %d; }" % (seed + q), "int (*vkt_fp)(int) = fp;", "long vkt_num = %dL;" % (77 * (seed + q))]
            open(src, "w").write("\n".join(t) + "\n")
            so = os.path.join(w, "libvkt%d%s.so" % (n, "ab"[q]))
            gen.cc_run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-I" + w, "-o", so, src], "library")
            pair.append(so)
        none = os.path.join(w, "absent-%d.so" % n)
        libs.append((pair[0], pair[1], none))
        auto = any("AUTOLOAD" in d for d in cfg.defs)
        lazy = any("LAZY" in d for d in cfg.defs)
        cfg.prefix = "vki%d_" % (same if same is not None else n) if n or any(x.get("same") == 0 for x in vs) or same is not None else r.choice([None, "vki0_"])
        cfg.defs = [gen.rename(d, cfg.prefix) if cfg.prefix else d for d in cfg.defs]
        hdrname = "hdr%d" % n
        cxx = cfg.fmt in ("c++", "minimal-c++")
        cxxc = cxx or cfg.lang == "c++"
        decls = "\n".join([proto(f) + ";" for f in fset] + ["extern %s;" % OBJ[x] for x in objs]) + "\n"
        args = ["-", "-format=" + cfg.fmt, "-param=read", "-no-date", "-out=" + hdrname + (".hpp" if cxx else ".h"), "-library=" + pair[0]] + (["-separate"] if cfg.separate else []) + (["-prefix=" + cfg.prefix] if cfg.prefix else [])
        rr = tool.run(args, stdin=decls.encode(), cwd=w)
        if rr.rc != 0:
            raise HarnessError("generator fails: %s\n%s" % (args, rr.text()))
        wrapped = any("WRAP" in d or "AUTOLOAD" in d for d in cfg.defs)
        hookable = [f for f in fset if not f.var] or [None]
        hook = r.choice(hookable).name if wrapped and hookable[0] else None
        text = ['#include "thr.h"', "#include <string>" if cxxc else "", "static __thread int zz_hooked;"]
        if hook:
            text.append("#define GDO_HOOK_%s(...) zz_hooked++" % hook)
        text += ['#include "%s"' % os.path.basename(args[4][5:]), SETUP[cfg.fmt].replace("ZFIRST", fset[0].name)]
        if auto and not cxx:
            # loaded by the first call instead
            text[-1] = text[-1].replace("static int zi_load(const char *fn) {", "ZONLY\nstatic void zi_use1(vkt_thr *t, int seed, int n);\nstatic int zi_load(const char *fn) { ZAUTO ")
        elif auto:
            text[-1] = text[-1].replace("static int zi_load(const char *fn) {", "ZONLY\nstatic void zi_use1(vkt_thr *t, int seed, int n);\nstatic int zi_load(const char *fn) { ZAUTO ")
        zauto = ""
        if auto:
            zauto = "static vkt_thr t0; t0.rng = 88172645463325252UL; (void)fn; "
            # each function once: its first use happens before the threads start
            zauto += "zz_only_functions = 1; for (int i = 0; i < 300; i++) zi_use1(&t0, %d, 1); zz_only_functions = 0; return !t0.bad;" % seed
        text.append(use_text(fset, objs, cfg.fmt == "plugin", lazy, hook))
        text.append((HIST_PLUGIN if cfg.fmt == "plugin" else HIST))
        t = "static int zz_only_functions;\n" + "\n".join(text).replace("ZONLY", "").replace("ZAUTO", zauto).replace("ZSEED", str(seed)).replace("ZAFTERBAD", "cur = -1;" if "minimal" in cfg.fmt else "")
        if cfg.prefix:
            t = "\n".join(gen.rename(l, cfg.prefix) if "gdo" in l.lower() else l for l in t.split("\n"))
        t += '\n#ifdef __cplusplus\nextern "C" {\n#endif\nextern struct vkt_iface zi_%d;\nstruct vkt_iface zi_%d = { "%d %s", %d, zi_load, zi_unload, zi_use, zi_hist };\n#ifdef __cplusplus\n}\n#endif\n' % (n, n, n, cfg.fmt, 3 if cfg.fmt == "plugin" else 1)
        f = os.path.join(w, "inst%d%s" % (n, ".cpp" if cxxc else ".c"))
        open(f, "w").write(t)
        srcs.append((f, cfg, cxxc))
        if cfg.separate:
            b = os.path.join(w, hdrname + (".cpp" if cxx else ".c"))
            srcs.append((b, cfg, b.endswith(".cpp")))
        insts.append((cfg, auto, lazy))
    inc = ["extern struct vkt_iface " + ", ".join("zi_%d" % n for n in range(len(insts))) + ";", "static struct vkt_iface *const ifaces[] = { %s };" % ", ".join("&zi_%d" % n for n in range(len(insts))),
           "enum { NI = %d };" % len(insts), "static const int AUTO[] = { %s };" % ", ".join(str(int(a)) for _, a, _ in insts)]
    for i, x in enumerate(("fnA", "fnB", "fnN")):
        inc.append("static const char *const %s[] = { %s };" % (x, ", ".join('"%s"' % l[i] for l in libs)))
    open(w + "/ifaces.inc", "w").write("\n".join(inc) + "\n")
    open(w + "/main.c", "w").write(MAIN)
    srcs.append((w + "/main.c", Config(cc=cc), False))
    objs = []
    for f, cfg, isx in srcs:
        comp = {"gcc": ("gcc", "g++"), "clang": ("clang", "clang++")}[cc][isx]
        defs = cfg.defs if not f.endswith("main.c") else []
        gen.cc_run([comp, cfg.olevel, "-g", "-w", "-fsanitize=thread", "-pthread", "-I" + w, "-include", w + "/thr.h"] + ["-D" + d for d in defs] + ["-c", f, "-o", f + ".o"], "threaded client (%r)" % cfg)
        objs.append(f + ".o")
    exe = w + "/prog"
    gen.cc_run([{"gcc": "g++", "clang": "clang++"}[cc], "-fsanitize=thread", "-pthread"] + objs + ["-o", exe, "-ldl"], "threaded program")
    return dict(w=w, exe=exe, insts=insts, k=k)


def check(c):
    c.rule = "one case = one run of a threaded program (mode, seed): threads sharing loaded interfaces, threads with histories on interfaces of their own, or both; distinct by program and schedule seen; non-trivial: the threads changed places at least 10 times"
    c.assumptions = ["loading, freeing and the first automatic load of one interface are not done while other threads use that interface (nothing promises that)", "races: what ThreadSanitizer observes in the generated code and the client; the libraries have no state of their own besides one element per thread",
                     "the loader functions themselves may be used from several threads (as glibc documents)"]
    tool = Tool(c)
    r = c.rng
    seeds = [r.getrandbits(60) for _ in range(c.n(10, 60))]
    import random

    def mk(k):
        try:
            return program(c, tool, random.Random(seeds[k]), k, "clang" if k % 3 == 2 else "gcc")
        except HarnessError as e:
            return e
    progs = pmap(mk, range(len(seeds)))
    bad = [p for p in progs if isinstance(p, HarnessError)]
    for e in bad:
        c.count("builds_set_aside")
        c.extra.setdefault("builds_set_aside_why", []).append(str(e)[:1500])
    if len(bad) * 2 > len(progs):
        raise bad[0]
    jobs = []
    for p in progs:
        if isinstance(p, HarnessError):
            continue
        for i in range(c.n(6, 30)):
            mode = i % 3
            jobs.append((p, mode, r.choice([2, 3, 6]), r.choice([10, 30, 60]), r.getrandbits(30), r.choice([2, 4])))

    def one(j):
        p, mode, nt, rounds, seed, phases = j
        return run2([p["exe"], str(mode), str(nt), str(rounds), str(seed), str(phases)], cwd=p["w"], timeout=120, env={"TSAN_OPTIONS": "exitcode=66:halt_on_error=0:second_deadlock_stack=1:history_size=5"})
    fmts = {}
    for j, res in zip(jobs, pmap(one, jobs)):
        p = j[0]
        if res.timeout:
            c.inconcl("timeout")
            continue
        err = res.err.decode("utf-8", "replace")
        m = re.search(r"calls=(\d+) queries=(\d+) ops=(\d+) handovers=(\d+) ticks=(\d+) schedule=(\w+)", res.out.decode())
        if res.rc == 9:
            raise HarnessError("threaded program: " + res.text())
        if res.rc != 0 or not m:
            what = "data race" if "ThreadSanitizer" in err else "mismatch" if "MISMATCH" in err else "status %s" % res.rc
            site = re.search(r"SUMMARY: ThreadSanitizer: ([^/]*)\S*/(\S+):\d+ in (.*)", err)
            mm = re.search(r"MISMATCH(?: thread \d+)?:? ([a-zA-Z ]+)", err)
            key = "%s:%s" % (what, " ".join(site.groups()[::2]) if site else mm.group(1) if mm else "")
            files = {"err.txt": err[:60000], "config.txt": "\n".join(repr(i[0]) for i in p["insts"]) + "\nmode %s, %s threads, %s rounds, seed %s, %s phases\n" % j[1:]}
            for n in os.listdir(p["w"]):
                if n.endswith((".c", ".cpp", ".h", ".hpp", ".inc")):
                    files["src/" + n] = open(os.path.join(p["w"], n)).read()
            c.violation(key, "%s\n%s" % (what, err[:2500]), files)
        if m:
            calls, queries, ops, hand, ticks = map(int, m.groups()[:5])
            c.count("calls", calls)
            c.count("state_queries", queries)
            c.count("history_operations", ops)
            c.count("handovers", hand)
            c.count("ticks", ticks)
            c.case(sha("%d %d %s" % (p["k"], j[1], m.group(6))), nontrivial=hand >= 10)
            for cfg, a, l in p["insts"]:
                t = "%s%s" % (cfg.fmt, " auto" if a else " wrap" if any("WRAP" in d for d in cfg.defs) else "")
                fmts[t] = fmts.get(t, 0) + 1
    c.extra["runs_per_kind_of_interface"] = fmts
    c.sample({"mode": jobs[0][1], "threads": jobs[0][2], "interfaces": [repr(i[0]) for i in jobs[0][0]["insts"]]})
