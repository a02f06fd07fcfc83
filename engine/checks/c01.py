from .common import *
from . import alllen


def lengths(fn, thorough):
    g = {"t1ha0_32le": 16, "t1ha0_32be": 16}.get(fn, 32)
    if fn in AES:
        return list(range(0, 530 if not thorough else 900))
    return list(range(0, 13 * g + 1 if not thorough else 24 * g + 2))


def values(ck, fns, cfgs, rests=None):
    ck.build(cfgs)
    preludes(ck, cfgs)
    for cfg in cfgs:
        for fn in fns:
            ls = lengths(fn, ck.thorough())
            for ch in chunks(ls, 12):
                ck.task("%s %s %d.." % (cfg.name, fn, ch[0]), value_task, cfg=cfg, fn=fn, lens=ch)
            ck.bounds.append("%s %s: every length 0..%d, every content, seed and address" %
                             (cfg.name, fn, ls[-1]))
    alllen.all_lengths(ck, fns, cfgs, rests)
    for fn in fns:
        ck.task("canary " + fn, canary_task, cfg=cfgs[0], fn=fn, n=37)
    ck.go()


def run(ck):
    values(ck, ("t1ha2_atonce",), [C("x64"), C("x64", gcc=False)])
    ck.validate()
    ck.confirm()
