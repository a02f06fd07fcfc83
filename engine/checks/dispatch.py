"""t1ha0() and t1ha0_resolve() under an arbitrary CPU."""
import os
from .selfchk import *

WRAP = os.path.join(build.HERE, "c", "w_t1ha0.c")


def fallback(cfg):
    """the portable function t1ha0 stands for in this configuration"""
    if cfg.bits == 64 and cfg.target != "x32":
        if not has(cfg, "T1HA1_DISABLED"):
            return "t1ha1_be" if cfg.big else "t1ha1_le"
        if not has(cfg, "T1HA2_DISABLED"):
            return "t1ha2_atonce"
    return "t1ha0_32be" if cfg.big else "t1ha0_32le"


def selects(cfg):
    """AES variants may be chosen at run time"""
    return aes_built(cfg) and not off(cfg, "T1HA0_RUNTIME_SELECT")


def tag(name):
    return sym("value_of_" + name, 64)


def ctors(ctx, st):
    """run the constructors, as the loader does before anything else"""
    p = ctx.prog
    states = [st]
    for m in p.modules:
        g = m.globals.get("llvm.global_ctors")
        if g is None:
            continue
        names = ctor_names(m, g)
        for n in names:
            nxt = []
            for s in states:
                ctx.call(s, p.lookup_fn(m, n), [])
                for e in ctx.run(s):
                    if e.status == "ret":
                        e.status = "run"
                        e.value = None
                        nxt.append(e)
                    else:
                        raise sx.Unsupported("constructor does not return")
            states = nxt
    return states


def ctor_names(m, g):
    out = []

    def walk(c):
        if isinstance(c, tuple):
            if len(c) >= 2 and c[0] in ("g", "global", "gref", "f") and isinstance(c[1], str) \
                    and c[1] in m.funcs:
                out.append(c[1])
                return
            for x in c:
                walk(x)
        elif isinstance(c, list):
            for x in c:
                walk(x)
    walk(g)
    return out


def call_tagged(cfg, fn):
    """fn(D, n, seed) with every hash replaced by its own arbitrary result;
    -> (ctx, end states, D, n, seed, runs of AES variants)"""
    p = prog(cfg)
    w = p.ptrw
    D, n, seed = sym("D", w), sym("n", w), sym("seed", 64)
    ran = []
    hooks = dict(stubs.CPU)

    def plain(name):
        def f(ctx, st, fr, ins, av):
            if name in stubs.AES:
                ran.append((name, st.pc))
            same = bv.conj([bv.eq(av[0], D), bv.eq(av[1], n), bv.eq(av[2], seed)])
            return bv.ite(same, tag(name), sym("junk_" + name, 64))
        return f
    for x in stubs.PORT + stubs.AES:
        if x != "t1ha2_atonce128":
            hooks[x] = plain(x)
    c = sx.Ctx(p, hooks=hooks)
    out = []
    for st in ctors(c, sx.State()):
        out += c.run(c.start(fn, [D, n, seed], st))
    return c, out, (D, n, seed), ran


def expected(cfg):
    v = tag(fallback(cfg))
    if selects(cfg):
        u = stubs.usable()
        for x in stubs.AES:
            v = bv.ite(u[x], tag(x), v)
    return v


TAGS = {"t1ha0_ia32aes_noavx": 0x1111, "t1ha0_ia32aes_avx": 0x2222, "t1ha0_ia32aes_avx2": 0x3333}

DMAIN = """#include <stdio.h>
#include "t1ha.h"
uint64_t w_t1ha0(const void *, size_t, uint64_t), w_resolve(const void *, size_t, uint64_t);
static unsigned char key[256];
%(wraps)s
int main(void) {
  int bad = 0;
  for (unsigned i = 0; i < sizeof key; i++) key[i] = (unsigned char)(i * 37 + 11);
  for (unsigned n = 0; n < 200; n += 13) {
    uint64_t seed = 0x123456789abcdef0ull * (n + 1), got, want;
    got = %(fn)s(key, n, seed);
    want = %(want)s;
    if (got != want) {
      printf("%(fn)s: length %%u: got %%llx, %(name)s gives %%llx\\n", n,
             (unsigned long long)got, (unsigned long long)want);
      bad = 1;
    }
  }
  return bad;
}
"""


def disp_replay(cfg, fn, env, want):
    vals = stubs.cpu_of(env)
    if not replay.native(cfg):
        return interp_replay(cfg, "dispatch", fn=fn, cpu=vals, want=want)
    ws = ""
    wrap = []
    if aes_built(cfg):
        for x in stubs.AES:
            ws += "uint64_t __wrap_%s(const void *d, size_t n, uint64_t s) " \
                "{ (void)d; return %#xull * (n + 1) ^ s; }\n" % (x, TAGS[x])
            wrap.append("-Wl,--wrap=" + x)
    call = "%#xull * (n + 1) ^ seed" % TAGS[want] if want in TAGS else "%s(key, n, seed)" % want
    files = {"main.c": DMAIN % {"wraps": ws, "fn": fn, "want": call, "name": want},
             "w_t1ha0.c": None, "fakecpuid.h": stubs.fake_header(vals)}
    return {"files": files, "script":
            stubs.build_lines(cfg, "main.c", ("w_t1ha0.c",), " ".join(wrap), cpu=True) +
            "\"$W/prog\"; rc=$?; [ $rc = 1 ] && exit 1; exit 0\n"}


def pick(cfg, env):
    """variant expected under a concrete CPU"""
    want = fallback(cfg)
    if selects(cfg):
        u = stubs.usable()
        for x in stubs.AES:
            if bv.evaluate([u[x]], env)[0]:
                want = x
    return want


def dispatch_task(out, cfg, fn, swap=False):
    p = prog(cfg)
    if p.funcs.get(fn) is None:
        out.add("not encoded")
        out.note("%s: no %s" % (cfg.name, fn))
        return
    c, states, args, ran = call_tagged(cfg, fn)
    out.take(c, states)
    want = expected(cfg)
    if swap:
        want = bv.ite(stubs.usable()["t1ha0_ia32aes_avx2"], tag("t1ha0_ia32aes_avx"), want)
    for s in states:
        if s.status != "ret" or s.value is None:
            out.add("no value on path")
            continue
        cs = list(s.pc) + [bv.not_(bv.eq(s.value, want))]
        st, env = decide(out, cs)
        out.add(st)
        if st == "cex":
            nice(cs, env)
            w = pick(cfg, env)
            got = [x for x in stubs.PORT + stubs.AES if x != "t1ha2_atonce128" and
                   bv.evaluate([bv.eq(s.value, tag(x))], env)[0]]
            out.candidates.append(core.Candidate(
                "wrong variant", cfg.name, fn, "expected %s, got %s with %s" %
                (w, got or "another value", {k: hex(x) for k, x in stubs.cpu_of(env).items()}),
                disp_replay(cfg, fn, env, w), key=("wrong variant", cfg.name, fn, w)))
    for e in c.events:
        st, env = decide(out, list(e.pc) + [e.cond])
        out.add(st)
        if st == "cex":
            out.candidates.append(core.Candidate(
                e.kind, cfg.name, fn, str(stubs.cpu_of(env)),
                disp_replay(cfg, fn, env, pick(cfg, env)), key=(e.kind, cfg.name, fn)))
    if selects(cfg):
        for name, pc in set(ran):
            st, env = decide(out, list(pc) + [bv.not_(stubs.usable()[name])])
            out.add(st)
            if st == "cex":
                out.candidates.append(core.Candidate(
                    "runs a variant the CPU lacks", cfg.name, fn, "%s with %s" % (
                        name, {k: hex(x) for k, x in stubs.cpu_of(env).items()}),
                    disp_replay(cfg, fn, env, pick(cfg, env)),
                    key=("lacks", cfg.name, fn, name)))
    if states and len(out.samples) < 1:
        out.samples.append({"config": cfg.name, "function": fn, "paths": len(states),
                            "value": bv.pretty(states[0].value, 4)[:300],
                            "condition": [bv.pretty(x, 3)[:120] for x in states[0].pc][:5]})


def nice(cs, env):
    """a model in which the stand-ins return different values"""
    tags = [tag(x) for x in stubs.PORT + stubs.AES if x != "t1ha2_atonce128"]
    fix = [bv.eq(t, const(0x1000 + i, 64)) for i, t in enumerate(tags)]
    r, m = smt.check(cs + fix, 4000, kind="replay")
    if r == "sat":
        e = eqv.model_env(m, cs + fix)
        env.syms.update(e.syms)


def canary_disp(out, cfg):
    sub = core.Out()
    dispatch_task(sub, cfg, "w_t1ha0", swap=True)
    out.add("canary refuted" if sub.count.get("cex") else "canary NOT refuted")


CPUS = ({}, {"cpuid_max": 1, "cpuid_1_0_c": 0x02000000},
        {"cpuid_max": 6, "cpuid_1_0_c": 0x1A000000, "cpuid_7_0_b": 0x20},
        {"cpuid_max": 7, "cpuid_1_0_c": 0x1A000000, "cpuid_7_0_b": 0x20},
        {"cpuid_max": 0x20, "cpuid_1_0_c": 0xffffffff, "cpuid_7_0_b": 0xffffffdf},
        {"cpuid_max": 7, "cpuid_1_0_c": 0xE5ffffff, "cpuid_7_0_b": 0x20})


def cpu_traces(cfgs, fns):
    out = []
    for cfg in cfgs:
        for i, c in enumerate(CPUS):
            env = eqv.Env(syms=dict(c))
            for k in ("cpuid_max", "cpuid_1_0_c", "cpuid_7_0_b"):
                env.syms.setdefault(k, 0)
            fn = fns[i % len(fns)]
            out.append(("%s %s %s" % (cfg.name, fn, c), disp_replay(cfg, fn, env, pick(cfg, env))))
    return out
