from .oblig import *
from . import alllen


def canary20(out, cfg):
    u = Call(cfg, "t1ha2_atonce", 13)
    # an event that can happen, and a value that depends on uninitialised memory
    u.c.events.append(sx.Event("shift amount >= width", (), bv.eq(bv.sel("M", const(3, u.w)),
                                                                  const(77, 8)), "canary", ""))
    o = core.Out()
    ob_arith(o, u)
    v = Call(cfg, "t1ha2_atonce", 13)
    for s in v.states:
        s.value = bv.xor(s.value, bv.zext(sym("uninit_x", 8), 64))
    ob_arith(o, v)
    out.add("canary refuted" if o.count.get("cex", 0) == 2 else "canary NOT refuted")


def run(ck):
    t = ck.thorough()
    base = [C("x64"), C("m32")]
    dbg = [C("x64", debug=True), C("m32", debug=True)]
    ub = [C("x64", ubsan=True), C("m32", ubsan=True)]
    opts = [C(x, U=u) for x in ("x64", "m32") for u in (0, 1)] + \
        [C("x64", O=0), C("m32", U=0, O=0), C("x64", gcc=False, debug=True),
         C("m32", U=0, debug=True), C("x64", no128=True), C("llp64"), C("s390x"), C("mips"),
         C("arm"), C("s390x", U=0, debug=True)]
    ck.build(base + dbg + ub + opts)
    for cfgs, n, ps, pcs, aes in ((base + dbg + ub, 98, range(32), range(0, 36), range(0, 290)),
                                  (opts, 40, FEW, range(0, 34), range(0, 66))):
        queue(ck, cfgs, ATONCE + AES, ("arith",), n * (4 if t else 1), list(pcs) + (
            list(range(36, 100)) if t else []), aes_lens=aes if not t else range(0, 500),
            ps=ps if not t else range(32))
    alllen.ob_all(ck, base + dbg + ub, ATONCE + AES, ("arith",), lambda L: range(L) if t else
                  (0, 3, L // 2, L - 1), range(32) if t else FEW)
    ck.task("canary", canary20, cfg=base[0])
    ck.go()
    ck.validate()
    ck.confirm()
