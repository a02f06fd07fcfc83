"""Self-checks run against arbitrary hashes and an arbitrary CPU."""
from .common import *
from .. import stubs
from ..stubs import PROBES, ref

SINGLE = {
    "t1ha_selfcheck__t1ha2_atonce": ("t1ha2_atonce",),
    "t1ha_selfcheck__t1ha2_atonce128": ("t1ha2_atonce128",),
    "t1ha_selfcheck__t1ha2_stream": ("stream", "stream128"),
    "t1ha_selfcheck__t1ha1_le": ("t1ha1_le",),
    "t1ha_selfcheck__t1ha1_be": ("t1ha1_be",),
    "t1ha_selfcheck__t1ha0_32le": ("t1ha0_32le",),
    "t1ha_selfcheck__t1ha0_32be": ("t1ha0_32be",),
    "t1ha_selfcheck__t1ha0_ia32aes_noavx": ("t1ha0_ia32aes_noavx",),
    "t1ha_selfcheck__t1ha0_ia32aes_avx": ("t1ha0_ia32aes_avx",),
    "t1ha_selfcheck__t1ha0_ia32aes_avx2": ("t1ha0_ia32aes_avx2",),
}
T2 = ("t1ha2_atonce", "t1ha2_atonce128", "stream", "stream128")
T1 = ("t1ha1_le", "t1ha1_be")
T0 = ("t1ha0_32le", "t1ha0_32be")


def has(cfg, d):
    return any(x == d or x.startswith(d + "=") and not x.endswith("=0") for x in cfg.defs)


def off(cfg, d):
    return any(x == d + "=0" for x in cfg.defs)


def aes_built(cfg):
    return cfg.x86 and not off(cfg, "T1HA0_AESNI_AVAILABLE") and not has(cfg, "T1HA0_DISABLED")


def combined(cfg):
    """{self-check: ([(hash, condition)], built?)} as documented"""
    t2 = [] if has(cfg, "T1HA2_DISABLED") else [(n, bv.TRUE) for n in T2]
    t1 = [] if has(cfg, "T1HA1_DISABLED") else [(n, bv.TRUE) for n in T1]
    t0 = []
    if not has(cfg, "T1HA0_DISABLED"):
        t0 = [(n, bv.TRUE) for n in T0]
        if aes_built(cfg):
            t0 += sorted(stubs.usable().items())
        if cfg.bits == 64 and cfg.target != "x32":
            # whatever t1ha0 falls back to
            t0 += [("t1ha1_be" if cfg.big else "t1ha1_le", bv.TRUE)] if t1 else \
                [("t1ha2_atonce", bv.TRUE)] if t2 else []
    r = {"t1ha_selfcheck__all_enabled": t2 + t1 + t0}
    if t2:
        r["t1ha_selfcheck__t1ha2"] = t2
    if t1:
        r["t1ha_selfcheck__t1ha1"] = t1
    if t0:
        r["t1ha_selfcheck__t1ha0"] = t0
    return r


def built(cfg):
    """hashes that this configuration contains"""
    r = []
    if not has(cfg, "T1HA2_DISABLED"):
        r += T2
    if not has(cfg, "T1HA1_DISABLED"):
        r += T1
    if not has(cfg, "T1HA0_DISABLED"):
        r += T0
        if aes_built(cfg):
            r += stubs.AES
    return r


MAIN = """#include <stdio.h>
#include "t1ha.h"
int main(void) {
  int rc = %s();
  printf("%s() returns %%d, expected %s\\n", rc);
  return %s;
}
"""


def sc_replay(cfg, fn, wrong, want_zero, vals, banned=()):
    names = built(cfg)
    text = "zero" if want_zero else "nonzero"
    if replay.native(cfg):
        files = {"main.c": MAIN % (fn, fn, text, "rc != 0" if want_zero else "rc == 0"),
                 "stubs.c": stubs.stub_source(cfg.bits, wrong, banned, names),
                 "fakecpuid.h": stubs.fake_header(vals)}
        return {"files": files, "script":
                stubs.build_lines(cfg, "main.c", ("stubs.c",), stubs.wraps(names), cpu=True) +
                "\"$W/prog\"; rc=$?; [ $rc = 1 ] && exit 1; exit 0\n"}
    return interp_replay(cfg, "selfcheck", fn=fn, cpu=vals, banned=list(banned),
                         wrong=[[n, i, v] for (n, i), v in sorted(wrong.items())],
                         want_zero=want_zero)


def wrong_of(env, cfg, names):
    """values of an assignment that differ from the specification"""
    r = {}
    for k, v in env.syms.items():
        if k.startswith("r_"):
            n, i = k[2:].rsplit("_", 1)
            if n in names and v != ref(n, int(i), cfg.bits)[0]:
                r[(n, int(i))] = v
    return r


def spec_env(cfg, names):
    """every stand-in returns what it should"""
    e = {}
    for n in names:
        for i in range(len(PROBES)):
            lo, hi = ref(n, i, cfg.bits)
            e[sym("r_%s_%d" % (n, i), 64)] = const(lo, 64)
            e[sym("h_%s_%d" % (n, i), 64)] = const(hi, 64)
    return e


def decide(out, cs, kind="queries", timeout=15000):
    """-> (status, env)"""
    r, m = smt.check(cs, timeout, kind=kind)
    if r == "unsat":
        return "proved", None
    if r == "sat":
        return "cex", eqv.model_env(m, cs)
    return "unknown", None


def selfcheck_task(out, cfg, fn, resp, xor=0):
    """resp: [(hash, condition)] that fn answers for"""
    p = prog(cfg)
    if p.funcs.get(fn) is None:
        out.add("cex")
        out.candidates.append(core.Candidate("missing self-check", cfg.name, fn, "not defined",
                                             sc_replay(cfg, fn, {}, True, {})))
        return
    b = stubs.Bench(cfg)
    c, states = stubs.run_selfcheck(b, p, fn)
    out.take(c, states)
    names = built(cfg)
    sub = spec_env(cfg, names)
    text = "%d probes" % len(PROBES)
    use = stubs.usable()
    for s in states:
        if s.status != "ret" or s.value is None:
            out.add("no value on path")
            continue
        zero = bv.eq(s.value, const(0, s.value.w))
        # one query per hash and probe group
        for name, cond in resp:
            bad = [bv.not_(bv.eq(sym("r_%s_%d" % (name, i), 64),
                                 const(ref(name, i, cfg.bits)[0] ^ (xor if i == 40 else 0), 64)))
                   for i in range(len(PROBES))]
            cs = list(s.pc) + [cond, zero, bv.disj(bad)]
            st, env = decide(out, cs)
            out.add(st)
            if st == "cex":
                w = minimise(cs, env, cfg, name, bad)
                vals = stubs.cpu_of(env)
                out.candidates.append(core.Candidate(
                    "wrong hash passes", cfg.name, fn,
                    "%s is wrong on %s yet the result is 0" % (name, ", ".join(
                        "probe %d" % i for (n, i) in sorted(w) if n == name)[:200]),
                    sc_replay(cfg, fn, w, False, vals)))
            elif st == "unknown":
                out.note("undecided: %s %s %s" % (cfg.name, fn, name))
        # no false alarm
        v, = bv.substitute([s.value], sub)
        pcs = bv.substitute(list(s.pc), sub) if s.pc else []
        st, env = decide(out, list(pcs) + [bv.not_(bv.eq(v, const(0, v.w)))])
        out.add(st)
        if st == "cex":
            out.candidates.append(core.Candidate(
                "correct hash fails", cfg.name, fn, "all values are right, result is not 0",
                sc_replay(cfg, fn, {}, True, stubs.cpu_of(env))))
    done = set()
    for name, pc, line in b.ran:
        if fn not in SINGLE and (name, pc) not in done:
            done.add((name, pc))
            st, env = decide(out, list(pc) + [bv.not_(use[name])])
            out.add(st)
            if st == "cex":
                out.candidates.append(core.Candidate(
                    "runs a variant the CPU lacks", cfg.name, fn, "%s with %s" % (
                        name, {k: hex(x) for k, x in stubs.cpu_of(env).items()}),
                    sc_replay(cfg, fn, {}, True, stubs.cpu_of(env), [name])))
    if len(out.samples) < 1:
        out.samples.append({"config": cfg.name, "function": fn, "hash inputs recorded":
                            len(b.asked), "result_term": bv.pretty(states[0].value, 3)[:200]})
    # the encoding's verdict on correct hashes, against the native build
    if replay.native(cfg) and not xor and not out.count.get("cex") and fn in SINGLE and fn.split("__")[1].find("aes") < 0:
        out.traces.append((cfg, ["selfcheck " + fn], ["0"]))


def minimise(cs, env, cfg, name, bad):
    """prefer a single wrong probe"""
    w = {k: v for k, v in wrong_of(env, cfg, built(cfg)).items()}
    # all other stand-ins right
    keep = [k for k in w if k[0] == name]
    for i in [k[1] for k in keep][:3]:
        fix = [bv.eq(sym("r_%s_%d" % (n, j), 64), const(ref(n, j, cfg.bits)[0], 64))
               for n in built(cfg) for j in range(len(PROBES)) if (n, j) != (name, i)]
        r, m = smt.check(cs + fix, 4000, kind="replay")
        if r == "sat":
            e = eqv.model_env(m, cs)
            env.syms.update(e.syms)
            return wrong_of(e, cfg, built(cfg))
    return w


def canary_sc(out, cfg, fn, resp):
    sub = core.Out()
    selfcheck_task(sub, cfg, fn, resp, xor=2)
    out.add("canary refuted" if sub.count.get("cex") else "canary NOT refuted")


def stub_traces(seed, cfgs, fns, n, vals):
    """single wrong values: the native self-check must notice"""
    import random
    rng = random.Random(seed)
    out = []
    for k in range(n):
        cfg, fn = rng.choice(cfgs), rng.choice(sorted(fns))
        if cfg.bits == 32 and fn.endswith(("t1ha0", "enabled")):
            cfg = cfgs[0]
        resp = [x for x, c in fns[fn]]
        name, i = rng.choice(resp), rng.randrange(len(PROBES))
        w = {(name, i): ref(name, i, cfg.bits)[0] ^ 1 << rng.randrange(64)}
        if k % 4 == 0:
            w = {}
        out.append(("%s %s %s" % (cfg.name, fn, w), sc_replay(cfg, fn, w, not w, vals)))
    return out
