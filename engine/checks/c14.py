from .oblig import *
from . import alllen


def canary14(out, cfg):
    u = calls(cfg, "t1ha2_atonce", 13)[0]
    a = [x for x in u.c.accesses if x.okind == "data"][0]
    u.c.accesses.append(sx.Access("R", a.obj, "data", const(3, u.w), 2, (), "canary", "", 2, False))
    o = core.Out()
    ob_align(o, u)
    out.add("canary refuted" if o.count.get("cex") else "canary NOT refuted")


def run(ck):
    base = [C("x64", U=0), C("m32", U=0)]
    opts = [C("x64", U=0, O=0), C("m32", U=0, O=0), C("x64", U=0, gcc=False), C("s390x", U=0),
            C("mips", U=0), C("mips", U=0, O=0), C("armv5", U=0), C("riscv64", U=0),
            C("x64", U=0, debug=True)]
    ck.build(base + opts)
    t = ck.thorough()
    queue(ck, base, ATONCE, ("align",), 98 if not t else 300,
          list(range(0, 70)) if not t else list(range(0, 140)))
    queue(ck, opts, ATONCE, ("align",), 66 if not t else 200,
          list(range(0, 34)) if not t else list(range(0, 100)),
          ps=range(32) if t else FEW)
    alllen.ob_all(ck, base, ATONCE, ("align",), lambda L: range(L) if L < 128 or t else (0, 1, 17, 40, 77, L - 1),
                  range(32) if t else FEW)
    alllen.ob_all(ck, opts, ATONCE, ("align",), lambda L: range(L) if t else (0, 3),
                  FEW if t else (0, 5), (0,) if not t else (0, 9))
    ck.task("canary", canary14, cfg=base[0])
    ck.go()
    ck.validate()
    ck.confirm()
