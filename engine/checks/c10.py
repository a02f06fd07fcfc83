from .oblig import *
from . import alllen


def canary10(out, cfg):
    u = Call(cfg, "t1ha2_atonce", 13)
    a = [x for x in u.c.accesses if x.okind == "data"][0]
    u.c.accesses.append(sx.Access("R", a.obj, "data", const(13, u.w), 1, (), "canary", "", 1, False))
    o = core.Out()
    ob_range(o, u)
    out.add("canary refuted" if o.count.get("cex") else "canary NOT refuted")


def run(ck):
    base = [C("x64", O=0), C("m32", O=0)]
    opts = [C(t, U=u, O=0) for t in ("x64", "m32") for u in (0, 1)] + \
        [C("x64", asan=True), C("m32", U=0, asan=True), C("m32", U=1, asan=True),
         C("x64", O=0, gcc=False), C("s390x", U=0, O=0), C("s390x", U=2, O=0),
         C("mips", U=1, O=0), C("mips", U=2, O=0), C("arm", O=0)]
    ck.build(base + opts)
    t = ck.thorough()
    queue(ck, base, ATONCE + AES, ("range",), 98 if not t else 300,
          list(range(0, 70)) if not t else list(range(0, 140)),
          aes_lens=range(0, 290 if not t else 700))
    queue(ck, opts, ATONCE, ("range",), 66 if not t else 200,
          list(range(0, 34)) if not t else list(range(0, 100)),
          ps=range(32) if t else FEW)
    alllen.ob_all(ck, base, ATONCE + AES, ("range",), lambda L: range(L) if L < 128 or t else (0, 1, 17, 40, 77, L - 1),
                  range(32) if t else FEW)
    alllen.ob_all(ck, opts, ATONCE, ("range",), lambda L: range(L) if t else (0, 3),
                  FEW if t else (0, 5), (0,) if not t else (0, 9))
    ck.task("canary", canary10, cfg=base[0])
    ck.go()
    ck.validate()
    ck.confirm()
