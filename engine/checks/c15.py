"""Every self-check for one hash, against every hash."""
from .selfchk import *


def run(ck):
    t = ck.thorough()
    cfgs = [C("x64"), C("m32"), C("x64", gcc=False), C("llp64"), C("s390x"), C("mips"),
            C("aarch64"), C("x64", O=0, U=0)]
    if t:
        cfgs += [C(x) for x in build.TARGETS if x not in ("x64", "m32", "llp64", "s390x", "mips",
                                                         "aarch64")]
        cfgs += [C("m32", gcc=False), C("s390x", gcc=False)]
    ck.build(cfgs, only=lambda b: "ia32aes" not in b)
    for cfg in cfgs:
        if cfg.name not in core.PROGS:
            continue
        for fn, names in SINGLE.items():
            if "aes" in fn and not aes_built(cfg):
                continue
            ck.task("%s %s" % (cfg.name, fn), selfcheck_task, cfg=cfg, fn=fn,
                    resp=[(n, bv.TRUE) for n in names])
    ck.task("canary", canary_sc, cfg=C("x64"), fn="t1ha_selfcheck__t1ha1_le",
            resp=[("t1ha1_le", bv.TRUE)])
    ck.bounds.append("every self-check of a single hash in %d configurations (release builds): "
                     "all 2^(64*81) combinations of values the hash may return on the documented "
                     "probes; the low half of the 128-bit modes, which is all the library compares"
                     % len(cfgs))
    ck.assumptions.append("on inputs that are no documented probe the hash is the specified one")
    ck.go()
    ck.native(stub_traces(ck.seed, [C("x64"), C("m32")], {k: [(n, bv.TRUE) for n in v] for k, v in SINGLE.items()}, 12,
                          {}))
    ck.validate()
    ck.confirm()
