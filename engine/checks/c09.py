from .oblig import *
from . import alllen


def canary9(out, cfg):
    """reading one byte past a one-byte key at a page end must be refuted"""
    u = Call(cfg, "t1ha2_atonce", 13)
    a = [x for x in u.c.accesses if x.okind == "data"][0]
    b = sx.Access("R", a.obj, "data", const(13, u.w), 1, (), "canary", "", 1, False)
    u.c.accesses.append(b)
    o = core.Out()
    ob_page(o, u)
    out.add("canary refuted" if o.count.get("cex") else "canary NOT refuted")


def run(ck):
    base = [C("x64"), C("m32")]
    opts = [C(t, U=u) for t in ("x64", "m32") for u in (0, 1, 2)] + \
        [C("x64", U=1, gcc=False), C("m32", U=1, gcc=False), C("s390x", U=0), C("s390x", U=1),
         C("mips", U=0), C("mips", U=1), C("mips", U=2), C("arm", U=0), C("armv5"),
         C("aarch64"), C("s390x", U=2)]
    ck.build(base + opts)
    t = ck.thorough()
    queue(ck, base, ATONCE + AES, ("page",), 98 if not t else 300,
          list(range(0, 70)) if not t else list(range(0, 140)),
          aes_lens=range(0, 290 if not t else 700))
    queue(ck, opts, ATONCE, ("page",), 66 if not t else 200,
          list(range(0, 34)) if not t else list(range(0, 100)),
          ps=range(32) if t else FEW)
    alllen.ob_all(ck, base, ATONCE + AES, ("page",), lambda L: range(L) if L < 128 or t else (0, 1, 17, 40, 77, L - 1),
                  range(32) if t else FEW)
    alllen.ob_all(ck, opts, ATONCE, ("page",), lambda L: range(L) if t else (0, 3),
                  FEW if t else (0, 5), (0,) if not t else (0, 9))
    ck.task("canary", canary9, cfg=base[0])
    ck.go()
    ck.validate()
    ck.confirm()
