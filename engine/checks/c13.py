"""One value everywhere: every configuration's code equals the same function."""
import os
import re
from .oblig import *

REFS = [C("x64"), C("m32"), C("s390x")]
ONLY = ("t1ha0.c", "t1ha1.c", "t1ha2.c")


def cfgdict(cfg):
    return interp_replay(cfg, "")["interp"]["cfg"]


CMP = """
norm() { grep '^ret ' "$1"; }
"""


def cross_replay(cfg, lines):
    """results of this configuration against those of others"""
    lines = ["noref"] + [x for x in lines if x != "noref"]
    if replay.native(cfg):
        s = CMP
        for i, c in enumerate([cfg, C("x64"), C("m32")]):
            s += "(\n" + "\n".join(replay.cc_lines(c, "O3")) + \
                "\n\"$W/drv\" \"$H/scenario.txt\" >\"$W/out\"\n) || exit 2\n" + \
                "norm \"$W/out\" >\"$W.%d\"; rm -f \"$W\"/*\n" % i
        s += "echo %s; cat \"$W.0\"; echo others; cat \"$W.1\" \"$W.2\"\n" % cfg.name
        s += "r=0; cmp -s \"$W.0\" \"$W.1\" || r=1; cmp -s \"$W.0\" \"$W.2\" || r=1\n"
        s += "rm -f \"$W.0\" \"$W.1\" \"$W.2\"; exit $r\n"
        return {"files": {"driver.c": None, "ref.h": None,
                          "scenario.txt": "\n".join(lines) + "\n"}, "script": s}
    d = interp_replay(cfg, "script", lines=lines)
    d["interp"]["others"] = [cfgdict(c) for c in REFS if c.name != cfg.name]
    return d


def recast(out, cfg):
    """candidates against the specification -> against other configurations"""
    for c in out.candidates:
        r = c.replay
        if not r or "files" in r or r.get("done"):
            continue
        lines = r["lines"] if "lines" in r else r["interp"]["lines"]
        c.replay = cross_replay(cfg, lines)
        c.kind = "platform-dependent value"


def values_13(out, cfg, fn, lens):
    value_task(out, cfg, fn, lens)
    recast(out, cfg)


def stream_13(out, cfg, ps, ns):
    init_task(out, cfg)
    step_task(out, cfg, ps, ns)
    final_task(out, cfg, ps)
    recast(out, cfg)


def chain_13(out, cfg, chains):
    chain_task(out, cfg, chains)
    recast(out, cfg)


ENV = re.compile(r"file not found|undeclared library function|unable to create target|"
                 r"unsupported option|No such file")


def compile_task(out, cfg, src, text, base_ok):
    if ENV.search(text) or not base_ok:
        out.add("not encoded")
        out.note("does not compile here: %s" % cfg.name)
        return
    out.add("cex")
    err = [x for x in text.splitlines() if "error" in x][:2]
    b = os.path.basename(src)
    if replay.native(cfg):
        s = "gcc %s -I\"$R\" -c -o \"$W/x.o\" \"$R/src/%s\"" % (
            " ".join("'%s'" % f for f in cfg.gcc_flags(src)), b)
        if not cfg.gcc:
            s = s.replace("gcc ", "clang ", 1)
    else:
        s = "clang %s -I\"$R\" -fsyntax-only \"$R/src/%s\"" % (
            " ".join("'%s'" % f for f in cfg.clang_flags(src)), b)
    s += " 2>&1 && exit 0\ntest -f \"$R/src/%s\" && exit 1\nexit 2\n" % b
    out.candidates.append(core.Candidate("does not compile", cfg.name, b, "; ".join(err)[:300],
                                         {"files": {}, "script": s}))


def matrix(t):
    cs = [C(x) for x in build.TARGETS]
    full = ("x64", "m32", "s390x", "mips")
    for x in build.TARGETS:
        for u in (0, 1, 2):
            cs.append(C(x, U=u))
            if x in full or t:
                cs.append(C(x, U=u, O=0))
    cs += [C("x64", O=0), C("m32", O=0), C("x64", no128=True), C("x64", U=0, no128=True),
           C("s390x", no128=True), C("x64", U=1, no128=True, gcc=False), C("aarch64", no128=True),
           C("x64", gcc=False), C("m32", gcc=False), C("s390x", gcc=False), C("arm", gcc=False),
           C("mips", gcc=False, U=0), C("x64", debug=True), C("s390x", debug=True),
           C("m32", asan=True)]
    return cs


def run(ck):
    t = ck.thorough()
    cs = matrix(t)
    res = ck.build(cs, only=lambda b: b in ONLY)
    rest = build.build(cs, only=lambda b: b not in ONLY and "ia32aes" not in b,
                                        parse=False)
    base_ok = not isinstance(res["x64"], build.CompileError)
    for n, e in list(res.items()) + list(rest.items()):
        if isinstance(e, build.CompileError):
            ck.task("compile " + n, compile_task, cfg=e.cfg, src=e.src, text=e.text,
                    base_ok=base_ok)
    preludes(ck, cs)
    big = sorted(set(list(range(0, 35)) + [47, 63, 64, 65, 66, 71, 97]))
    small = sorted(set(list(range(0, 34)) + [63, 64, 65]))
    for cfg in cs:
        if cfg.name not in core.PROGS:
            continue
        rep = cfg.name in ("x64", "m32", "s390x", "mips", "arm") or t
        for fn in ATONCE:
            ls = range(0, 131) if t else big if rep else small
            for ch in chunks(ls, 40):
                ck.task("%s %s %d.." % (cfg.name, fn, ch[0]), values_13, cfg=cfg, fn=fn, lens=ch)
        ps = range(32) if t else FEW if rep else (0, 7, 12, 31)
        ns = list(range(0, 66 if t else 40)) if rep else [0, 1, 5, 8, 20, 25, 31, 32, 33, 63]
        for pp in chunks(ps, 8):
            ck.task("%s stream %s" % (cfg.name, pp), stream_13, cfg=cfg, ps=pp, ns=ns)
    ck.task("canary", canary, cfg=C("x64"))
    for fn in ATONCE:
        ck.task("canary " + fn, canary_task, cfg=C("s390x"), fn=fn, n=13)
    ck.bounds.append("%d build configurations (target, unaligned access, one-shot reads, 128-bit "
                     "products, builtins): lengths %s, every content, seed, address; streaming "
                     "init, update from any state with the listed numbers of pending bytes and "
                     "pieces, final" % (len(cs), "0..130" if t else "0..33 and some longer"))
    ck.go()
    ck.validate()
    ck.confirm()
