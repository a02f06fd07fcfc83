"""Dispatch of t1ha0."""
from .dispatch import *


def run(ck):
    t = ck.thorough()
    NOIF = "T1HA_USE_INDIRECT_FUNCTIONS=0"
    cfgs = [C("x64"), C("m32"), C("x64", gcc=False), C("m32", gcc=False),
            C("x64", defs=(NOIF,)), C("llp64"), C("x32"), C("x64", debug=True)]
    ck.build(cfgs, only=lambda b: "selfcheck" not in b and "ia32aes" not in b or b == "x",
             extra_srcs=[WRAP])
    for cfg in cfgs:
        if cfg.name in core.PROGS:
            for fn in ("w_t1ha0", "w_resolve"):
                ck.task("%s %s" % (cfg.name, fn), dispatch_task, cfg=cfg, fn=fn)
    ck.task("canary", canary_disp, cfg=C("x64"))
    ck.bounds.append("t1ha0() and t1ha0_resolve()() in %d configurations (IFUNC and function "
                     "pointer set by a constructor): every value of every CPUID register, every "
                     "argument; no bound on lengths (the hashes are stand-ins)" % len(cfgs))
    ck.assumptions.append("CPUID answers are constant; the constructor runs before the first call; "
                          "the operating system's XCR0 is not looked at, as the property says")
    ck.go()
    ck.native(cpu_traces([C("x64"), C("m32")], ("w_t1ha0", "w_resolve")))
    ck.confirm()
