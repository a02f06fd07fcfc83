"""Combined self-checks, against every set of wrong hashes and every CPU."""
from .selfchk import *


def run(ck):
    t = ck.thorough()
    cfgs = [C("x64"), C("m32"), C("llp64"), C("s390x"), C("mips"), C("aarch64"),
            C("x64", gcc=False), C("x64", defs=("T1HA_USE_INDIRECT_FUNCTIONS=0",))]
    if t:
        cfgs += [C(x) for x in build.TARGETS if x not in ("x64", "m32", "llp64", "s390x", "mips",
                                                         "aarch64")]
    ck.build(cfgs, only=lambda b: "ia32aes" not in b)
    for cfg in cfgs:
        if cfg.name not in core.PROGS:
            continue
        for fn, resp in combined(cfg).items():
            ck.task("%s %s" % (cfg.name, fn), selfcheck_task, cfg=cfg, fn=fn, resp=resp)
    ck.task("canary", canary_sc, cfg=C("x64"), fn="t1ha_selfcheck__all_enabled",
            resp=combined(C("x64"))["t1ha_selfcheck__all_enabled"])
    ck.bounds.append("t1ha2, t1ha1, t1ha0 and all_enabled self-checks in %d configurations: every "
                     "combination of returned values, every value of every CPUID register"
                     % len(cfgs))
    ck.assumptions.append("on inputs that are no documented probe the hash is the specified one")
    ck.assumptions.append("usable means the documented CPUID bits; XCR0 is not looked at")
    ck.go()
    ck.native(stub_traces(ck.seed, [C("x64"), C("m32")], combined(C("x64")), 12,
                          {"cpuid_max": 7, "cpuid_1_0_c": 0x1A000000, "cpuid_7_0_b": 0x20}))
    ck.confirm()
