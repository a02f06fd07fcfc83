from .oblig import *
from . import alllen


def canary11(out, cfg):
    u = Call(cfg, "t1ha2_atonce", 13)
    u.c.accesses.append(sx.Access("W", "g", "global", const(0, u.w), 8, (), "canary", "", 8, False))
    o = core.Out()
    ob_pure(o, u)
    out.add("canary refuted" if o.count.get("cex") else "canary NOT refuted")


def run(ck):
    cfgs = [C("x64"), C("m32"), C("x64", gcc=False)]
    ck.build(cfgs)
    t = ck.thorough()
    queue(ck, cfgs, ATONCE + AES, ("pure",), 130 if not t else 600,
          list(range(0, 70)) if not t else list(range(0, 140)),
          aes_lens=range(0, 420 if not t else 1100))
    alllen.ob_all(ck, cfgs, ATONCE + AES, ("pure",), lambda L: range(L) if t else
                  (0, 3, L // 2, L - 1), range(32) if t else FEW)
    ck.task("canary", canary11, cfg=cfgs[0])
    ck.go()
    ck.validate()
    ck.confirm()
