"""Reduced builds."""
import itertools
from .dispatch import *
from .c13 import ENV

AESOFF, RTOFF, RTON = "T1HA0_AESNI_AVAILABLE=0", "T1HA0_RUNTIME_SELECT=0", "T1HA0_RUNTIME_SELECT=1"
NOIF, UDEF = "T1HA_USE_INDIRECT_FUNCTIONS=0", "T1HA0_USE_DEFINE=1"


def matrix(t):
    cs = []
    dis = [d for d in itertools.product((0, 1), repeat=3) if d != (1, 1, 1)]
    for d in dis:
        off_ = tuple("T1HA%d_DISABLED" % i for i in range(3) if d[i])
        for tg in ("x64", "m32"):
            for extra in ((), (AESOFF,), (RTOFF,), (AESOFF, RTOFF)):
                if d[0] and extra not in ((), (AESOFF, RTOFF)) and not t:
                    continue
                if off_ + extra:
                    cs.append(C(tg, defs=off_ + extra))
        for tg in ("s390x", "mips", "aarch64") + (("arm", "ppc32", "ppc64", "x32", "llp64",
                                                   "riscv64", "aarch64be") if t else ()):
            if off_:
                cs.append(C(tg, defs=off_))
                if t and tg in ("llp64", "x32"):
                    cs += [C(tg, defs=off_ + e) for e in ((AESOFF,), (RTOFF,), (AESOFF, RTOFF))]
    cs += [C("s390x", defs=(RTON,)), C("aarch64", defs=(RTON,)), C("arm", defs=(RTON,)),
           C("mips", defs=(RTON, "T1HA1_DISABLED")), C("s390x", defs=("T1HA1_DISABLED", RTON)),
           C("x64", defs=(RTOFF, UDEF)), C("s390x", defs=(UDEF,)), C("m32", defs=(RTOFF, UDEF)),
           C("x64", defs=("T1HA1_DISABLED", RTOFF, UDEF)),
           C("s390x", defs=("T1HA1_DISABLED", UDEF)), C("mips", defs=(UDEF,)),
           C("x64", defs=("T1HA1_DISABLED", NOIF)), C("x64", defs=(AESOFF, RTON)),
           C("m32", defs=(AESOFF, RTON)), C("x64", defs=("T1HA1_DISABLED", "T1HA2_DISABLED", NOIF))]
    return cs


LMAIN = """#include <stdio.h>
#include "t1ha.h"
#ifndef T1HA0_DISABLED
uint64_t w_t1ha0(const void *, size_t, uint64_t);
#endif
int w_check(void);
int main(void) {
#ifndef T1HA0_DISABLED
  w_t1ha0("", 0, 0);
#endif
  return w_check() == 12345;
}
"""


def link_replay(cfg):
    """exit 1: this configuration does not compile or link (and the plain one does)"""
    plain = C(cfg.target)
    s = "(\n" + stubs.build_lines(plain, "main.c", ("w_t1ha0.c",)) + ") || exit 2\n" + \
        "rm -f \"$W\"/*.o\n(\n" + stubs.build_lines(cfg, "main.c", ("w_t1ha0.c",)) + \
        ") || exit 1\nexit 0\n"
    return {"files": {"main.c": LMAIN, "w_t1ha0.c": None}, "script": s}


def compile_replay(cfg, src):
    s = "for f in \"$R\"/src/*.c \"$H/w_t1ha0.c\"; do clang %s -I\"$R\" -fsyntax-only \"$f\" " \
        "|| exit 2; done\n" % " ".join("'%s'" % f for f in C(cfg.target).clang_flags("x"))
    s += "for f in \"$R\"/src/*.c \"$H/w_t1ha0.c\"; do clang %s -I\"$R\" -fsyntax-only \"$f\" " \
        "|| exit 1; done\nexit 0\n" % " ".join("'%s'" % f for f in cfg.clang_flags("x"))
    s = s.replace("-fsyntax-only", "-maes -mavx2 -fsyntax-only") if cfg.x86 else s
    return {"files": {"w_t1ha0.c": None}, "script": s}


def compile_18(out, cfg, src, text, base_ok):
    if ENV.search(text) or not base_ok:
        out.add("not encoded")
        out.note("does not compile here: %s" % cfg.name)
        return
    out.add("cex")
    err = [x for x in text.splitlines() if "error" in x][:2]
    out.candidates.append(core.Candidate(
        "does not compile", cfg.name, os.path.basename(src), "; ".join(err)[:300],
        link_replay(cfg) if replay.native(cfg) else compile_replay(cfg, src)))


def names_in(x, acc):
    if isinstance(x, tuple) or isinstance(x, list):
        if len(x) >= 2 and x[0] in ("f", "g") and isinstance(x[1], str):
            acc.add(x[1])
        for y in x:
            names_in(y, acc)


def undefined_task(out, cfg):
    """every library symbol that compiled code refers to is defined"""
    p = prog(cfg)
    miss = set()
    for m in p.modules:
        used = set()
        for f in m.funcs.values():
            for b in f.blocks.values() if hasattr(f.blocks, "values") else f.blocks:
                for ins in b if isinstance(b, list) else b.ins:
                    names_in(ins.a, used)
        for g in m.globals.values():
            names_in(g, used)
        for n in used:
            if n.startswith("t1ha") and p.lookup_fn(m, n) is None and n not in p.ifuncs and \
                    p.lookup_global(m, n) is None:
                miss.add(n)
    out.add("proved" if not miss else "cex")
    for n in sorted(miss)[:2]:
        out.candidates.append(core.Candidate(
            "does not link", cfg.name, n, "undefined symbol",
            link_replay(cfg) if replay.native(cfg) else None))


def values_18(out, cfg, lens):
    for fn in ATONCE:
        if fn in prog(cfg).funcs:
            value_task(out, cfg, fn, lens)
            for c in out.candidates:
                pass
        elif fn in built(cfg):
            out.add("cex")
            out.candidates.append(core.Candidate("missing function", cfg.name, fn, "not defined",
                                                 missing_replay(cfg, fn)))
    for fn in (built(cfg) if "stream" in built(cfg) else ()):
        if fn == "stream" and not all(x in prog(cfg).funcs for x in
                                      ("t1ha2_init", "t1ha2_update", "t1ha2_final")):
            out.add("cex")
            out.candidates.append(core.Candidate("missing function", cfg.name, "t1ha2_update",
                                                 "not defined", missing_replay(cfg, "t1ha2_update")))


def missing_replay(cfg, fn):
    if not replay.native(cfg):
        return None
    main = "#include \"t1ha.h\"\nint main(void) { return (int)(long)(void *)%s; }\n" % fn
    s = "(\n" + stubs.build_lines(C(cfg.target), "main.c") + ") || exit 2\nrm -f \"$W\"/*.o\n(\n" + \
        stubs.build_lines(cfg, "main.c") + ") || exit 1\nexit 0\n"
    return {"files": {"main.c": main}, "script": s}


def run(ck):
    t = ck.thorough()
    cs = matrix(t)
    plain = [C(x) for x in sorted({c.target for c in cs})]
    ck.build(cs, only=lambda b: True, extra_srcs=[WRAP])
    res = build.build(plain, extra_srcs=[WRAP], parse=False)
    ok = {c.target: not isinstance(res[c.name], build.CompileError) for c in plain}
    for n, e in ck.compile_errors.items():
        ck.task("compile " + n, compile_18, cfg=e.cfg, src=e.src, text=e.text,
                base_ok=ok[e.cfg.target])
    for cfg in cs:
        if cfg.name not in core.PROGS:
            continue
        ck.task("%s symbols" % cfg.name, undefined_task, cfg=cfg)
        if not has(cfg, "T1HA0_DISABLED"):
            ck.task("%s t1ha0" % cfg.name, dispatch_task, cfg=cfg, fn="w_t1ha0")
        fn = "t1ha_selfcheck__all_enabled"
        ck.task("%s %s" % (cfg.name, fn), selfcheck_task, cfg=cfg, fn=fn, resp=combined(cfg)[fn])
        ck.task("%s values" % cfg.name, values_18, cfg=cfg,
                lens=(0, 1, 5, 8, 13, 20, 31, 32, 33, 47, 65) if not t else range(0, 70))
    preludes(ck, cs)
    ck.task("canary", canary_disp, cfg=C("x64", defs=("T1HA2_DISABLED",)))
    ck.task("canary", canary_sc, cfg=C("x64", defs=("T1HA0_DISABLED",)),
            fn="t1ha_selfcheck__all_enabled",
            resp=combined(C("x64", defs=("T1HA0_DISABLED",)))["t1ha_selfcheck__all_enabled"])
    ck.bounds.append("%d reduced configurations: t1ha0() for every argument and CPUID answer; "
                     "all_enabled for every combination of returned values and CPUID answer; the "
                     "remaining at-once functions at the listed lengths, every content, seed and "
                     "address" % len(cs))
    ck.go()
    red = [C(x, defs=d) for x in ("x64", "m32") for d in (("T1HA1_DISABLED",), (AESOFF,),
                                                          ("T1HA1_DISABLED", "T1HA2_DISABLED"))]
    red = [c for c in red if c.name in core.PROGS]
    ck.native(cpu_traces(red, ("w_t1ha0",))[::3] if not t else cpu_traces(red, ("w_t1ha0",)))
    ck.validate()
    ck.confirm()
