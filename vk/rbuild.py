"""Builds and histories shared by the run-time checks."""
import os, random
from . import decl, gen, hist
from .core import HarnessError, pmap, sha
from .gen import Config


def aspect_report(c, want, files):
    """violations of the aspects this check decides"""
    def report(aspect, st, msg):
        if aspect in want:
            c.violation("%s:%s:%s" % (aspect, st.cmd, msg.split("'")[0][:60]), "op %d (%s): %s" % (st.n, st.cmd, msg), files())
    return report


def names_for(r, k):
    """declaration sets with awkward name relations"""
    def mk(names, funcs=True, objs=True):
        return [decl.gen_sym(r, n, decl.Spec(named=False, funcs=funcs, objects=objs, tagged=False)) for n in names]
    kinds = [
        lambda: decl.gen_decls(r, decl.Spec(named=False, nsyms=(1, 14), tagged=False)),
        lambda: mk(["vk_" + "a" * i for i in range(1, r.randint(3, 7))]),                       # each a prefix of the next
        lambda: mk(["vk_", "vk_x", "vk_xy", "vk_y", "vk__"]),                                   # the common prefix is a symbol
        lambda: mk(["vk_only"]),
        lambda: mk(["vk_obj_only"], funcs=False),
        lambda: mk(["vk_f1", "vk_f2", "vk_f3"], objs=False),
        lambda: mk(["vko_a", "vko_b"], funcs=False),
        lambda: mk(["aK", "bK", "cK", "dK9"]),                                                  # no common prefix
        lambda: mk(["vkab", "vkba", "vkac", "vkca", "vkAb", "vkaB"]),                           # same length, permuted
        lambda: mk(["gdo_vk1", "GDO_vk2", "_gdo_vk3", "vk_gdo_handle_t", "vk_GDO_PTR_x"]),
        lambda: decl.gen_decls(r, decl.Spec(named=False, nsyms=(25, 40), tagged=False)),
    ]
    syms = kinds[k % len(kinds)]()
    r.shuffle(syms)
    return syms


def configs(r, fmt="c", n=12, san="plain", skip=0):
    """build configurations that do not change behaviour"""
    base = [dict(), dict(separate=True), dict(defs=["GDO_STATIC"]), dict(cc="clang"), dict(defs=["GDO_DISABLE_ALIASING"]), dict(defs=["GDO_WRAP_FUNCTIONS"]), dict(cc="clang", separate=True, std="c99" if fmt == "c" else "c++11"),
            dict(std="c99" if fmt == "c" else "c++11", olevel="-O2"), dict(param="skip"), dict(param="skip", separate=True, cc="clang"), dict(defs=["GDO_STATIC", "GDO_WRAP_FUNCTIONS"], olevel="-O2"),
            dict(defs=["GDO_ENABLE_AUTOLOAD", "GDO_DISABLE_WARNINGS"]), dict(opts=["-line", "-no-pragma-once"], std="gnu17" if fmt == "c" else "c++20"), dict(defs=["GDO_DEFAULT_FLAGS=2"]), dict(defs=["GDO_WRAP_VISIBILITY=", "GDO_WRAP_FUNCTIONS", "GDO_DISABLE_WARNINGS"]),
            dict(prefix="My_Lib"), dict(defs=["GDO_ENABLE_AUTOLOAD_LAZY", "GDO_DISABLE_WARNINGS"], std="c11" if fmt == "c" else "c++17"), dict(olevel="-O0"), dict(olevel="-O3", cc="clang")]
    if fmt == "c":
        base += [dict(lang="c++"), dict(lang="c++", separate=True, cc="clang", std="c++11"), dict(lang="c++", defs=["GDO_WRAP_FUNCTIONS"], std="c++20")]
    res = []
    for i in range(skip, skip + n):
        kw = dict(base[i % len(base)])
        if fmt == "c++":
            kw["defs"] = [d for d in kw.get("defs", []) if d != "GDO_STATIC"]
        kw["fmt"] = fmt
        kw["san"] = san
        cfg = Config(**kw)
        if cfg.param == "skip":
            cfg.defs = [d for d in cfg.defs if "WRAP" not in d and "AUTOLOAD" not in d]
        res.append(cfg)
    return res


def min_configs(r, fmt, n, san="plain", skip=0):
    base = [dict(), dict(cc="clang"), dict(defs=["GDO_DISABLE_ALIASING"]), dict(prefix="My_Lib"), dict(olevel="-O0"), dict(olevel="-O3", cc="clang"), dict(param="skip")]
    if fmt == "minimal":
        base += [dict(defs=["GDO_STATIC"]), dict(std="c99"), dict(std="c11", cc="clang"), dict(lang="c++"), dict(lang="c++", std="c++11", cc="clang", defs=["GDO_STATIC"])]
    else:
        base += [dict(std="c++11"), dict(std="c++11", cc="clang"), dict(std="c++20"), dict(std="c++23", cc="clang")]
    return [Config(fmt=fmt, san=san, **base[i % len(base)]) for i in range(skip, skip + n)]


def setup(c, tool, r, k, cfg, driver="drv_c.c"):
    """one declaration set, built in one configuration"""
    w = c.mkdir("b%d" % k)
    syms = names_for(r, k)
    if cfg.fmt == "c" and any("WRAP" in d or "AUTOLOAD" in d for d in cfg.defs) and cfg.param != "skip":
        pass
    libs = gen.libset(c, r, w, syms, str(k))
    byp = {l.path: l for l in libs.values()}
    dflt = libs[r.choice("AABM")].path
    how = k % 3
    cfg = Config(**dict(cfg.__dict__))
    pfx = gen.rename("GDO_", cfg.prefix) if cfg.prefix else "GDO_"
    cfg.defs = [d.replace("GDO_", pfx, 1) if cfg.prefix else d for d in cfg.defs]
    flags = hist.RTLD_LAZY
    for d in cfg.defs:
        if "DEFAULT_FLAGS=" in d:
            flags = int(d.split("=")[1])
    if how == 0:
        cfg.opts = cfg.opts + ["-library=" + dflt]
    elif how == 1:
        cfg.defs = cfg.defs + ['%sDEFAULT_LIB="%s"' % (pfx, dflt)]
    else:
        cfg.opts = cfg.opts + ['-D%sDEFAULT_LIBA="%s"' % (pfx, dflt)]
    return w, syms, libs, byp, dflt, flags, cfg


def build(c, tool, r, k, cfg, driver="drv_c.c"):
    w, syms, libs, byp, dflt, flags, cfg = setup(c, tool, r, k, cfg, driver)
    hdr, body = gen.generate(c, tool, w, syms, cfg)
    order = [s for s in syms if s.is_func] + [s for s in syms if not s.is_func]
    tab = None
    if driver == "drv_min.c":
        tab = gen.tables(order, cfg, "gdo_hndl.GDO_PTR_%s", nums=False)
    elif driver == "drv_mincxx.cpp":
        tab = gen.tables(order, cfg, "gdo::GDO_PTR_%s", nums=False)
    exe = gen.build_driver(c, w, cfg, driver, order, hdr, body, tables_text=tab)
    return dict(w=w, symobjs=order, syms=[s.name for s in order], libs=libs, byp=byp, dflt=dflt, flags=flags, cfg=cfg, exe=exe, k=k)


def history(c, b, script, want, model_cls=hist.CModel, tag="", env=None, pre=()):
    """run one script and judge it"""
    text = "\n".join(script) + "\n"
    ident = "%s%d" % (tag, id(script))
    res, log = gen.run_script(b["exe"], b["w"], ident, text, san=b["cfg"].san, env=env, pre=pre, timeout=60 if not pre else 200)
    if res.timeout:
        c.inconcl("timeout: " + text[:100])
        return None
    files = lambda: {"script.txt": text, "log.txt": log, "config.txt": repr(b["cfg"]) + "\nsymbols: %s\nlibs: %s\ndefault: %s\n" % (b["syms"], {k: v.path[:200] for k, v in b["libs"].items()}, b["dflt"]) + res.text(3000)}
    if res.rc in (90, 91, 92, 93, 95, 96, 97):
        raise HarnessError("driver protocol error %d: %s" % (res.rc, log[-500:]))
    rep = aspect_report(c, want, files)
    steps = hist.parse(log)
    m = model_cls(b["syms"], b["byp"], b["dflt"], rep, b["flags"])
    judged = hist.run_model(m, script, steps)
    if res.rc != 0 and "crash" in want:
        c.violation("exit:%s" % res.rc, "the program ended with status %s\n%s" % (res.rc, res.text(1500)), files())
    if any(e and e[0] == "harness" for s in steps for e in s.ev):
        raise HarnessError("shim: " + log[-1000:])
    c.count("operations_judged", judged)
    c.count("loader_events", sum(len(s.ev) for s in steps))
    return m, steps, res, files


def build_all(c, tool, r, cfgs, ks=None, driver="drv_c.c", builder=None):
    """Builds every configuration; one that does not compile is set aside (T14 judges that)."""
    ks = list(ks if ks is not None else range(len(cfgs)))
    seeds = [r.getrandbits(64) for _ in ks]
    builder = builder or build

    def one(i):
        try:
            return builder(c, tool, random.Random(seeds[i]), ks[i], cfgs[i], driver)
        except HarnessError as e:
            return e
    res = pmap(one, range(len(ks)))
    bad = [b for b in res if isinstance(b, HarnessError)]
    for e in bad:
        c.count("builds_set_aside")
        c.extra.setdefault("builds_set_aside_why", []).append(str(e)[:3000])
    if len(bad) * 2 > len(res):
        raise bad[0]
    return [b for b in res if not isinstance(b, HarnessError)]
