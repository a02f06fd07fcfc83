"""Building blocks shared by the checks."""
import time
from .. import bv, smt, sx, eqv, spec, build, core, replay
from ..bv import const, sym, ule, add, ext

C = build.Cfg
ATONCE = ("t1ha2_atonce", "t1ha2_atonce128", "t1ha1_le", "t1ha1_be", "t1ha0_32le", "t1ha0_32be")
AES = ("t1ha0_ia32aes_noavx", "t1ha0_ia32aes_avx", "t1ha0_ia32aes_avx2")
PORTABLE = ATONCE
GRAIN = {"t1ha0_32le": 16, "t1ha0_32be": 16}


def prog(cfg):
    p = core.PROGS.get(cfg.name)
    if p is None:
        raise sx.Unsupported("no program for " + cfg.name)
    return p


class Call:
    """one symbolic at-once call"""

    def __init__(self, cfg, fn, n, low=None, null=False, hooks=None, arr="M", dname="D",
                 sname="seed", pre=None, fixed_page=None):
        self.cfg, self.fn, self.n = cfg, fn, n
        p = prog(cfg)
        self.w = w = p.ptrw
        self.c = c = sx.Ctx(p, hooks=hooks)
        self.low = low
        st = sx.State()
        self.seed = sym(sname, 64)
        self.mem = spec.Mem(w, arr)
        if null:
            self.D = const(0, w)
            c.data_len = 0
        else:
            if low is None:
                self.D = D = sym(dname, w)
                o = c.new_obj(st, "data", "data", None, default=("array", arr), base=D)
                c.data_atom = D
                c.data_len = n
            else:
                k, v = low
                A = bv.concat(sym(dname + "h", w - k), const(0, k))
                o = c.new_obj(st, "data", "data", None, default=("array", arr), base=A)
                self.D = D = add(A, const(v, w))
                self.mem = spec._Shift(self.mem, v)
                c.data_atom = bv.sym(dname + "h", w - k)
            # the key lies in the user half: neither end wraps
            c.assume = [ule(const(8192, w), D), ule(D, const((1 << w) - 8192 - n, w))]
        self.lenn = const(n, w)
        args = [self.D, self.lenn, self.seed]
        self.extra = None
        if fn == "t1ha2_atonce128":
            self.extra = c.new_obj(st, "extra", "extra", 8, align=8,
                                   default=("array", "X"))
            args = [self.extra.base] + args
        if pre:
            pre(self, st)
        st = c.start(fn, args, st)
        self.states = c.run(st)

    def values(self, s):
        """what the call delivers in end state s"""
        v = [s.value]
        if self.extra is not None:
            o = s.mem[self.extra.id]
            v.append(self.c.join(self.c.load_bytes(o, 0, 8)))
        return v

    def spec(self):
        h = spec.HASHES[self.fn]
        return list(h.value(self.mem, self.n, self.lenn, self.seed))


def calls(cfg, fn, n, **kw):
    """one Call, or eight with the low address bits fixed when pointer
    arithmetic needs that"""
    try:
        return [Call(cfg, fn, n, **kw)]
    except sx.NeedSplit:
        return [Call(cfg, fn, n, low=(3, v), **kw) for v in range(8)]


def envs_for(call, fixed=None):
    es = eqv.sim_envs(6, fixed)
    if call.low is None:
        es += eqv.page_envs("D", call.w, call.n)
    return es


def env_addr(call, env):
    """concrete key address in an assignment"""
    v, = bv.evaluate([call.D], env)
    return v


def shifted(call, env):
    """assignment with memory offsets relative to the key"""
    e = eqv.Env(env.syms, {}, env.seed)
    sh = call.low[1] if call.low else 0
    for (a, o), v in env.mem.items():
        e.mem[(a, (o - sh) & bv.mask(call.w))] = v
    e.syms = dict(env.syms)
    e.syms["D"] = env_addr(call, env)
    return e


def native_replay(cfg, lines, modes=("O3", "O0")):
    return {"cfg": cfg, "lines": lines, "modes": list(modes)}


def value_replay(call, env, modes=("O3", "O0")):
    e = shifted(call, env)
    if replay.native(call.cfg):
        return native_replay(call.cfg, replay.hash_lines(call.fn, e, call.n, call.w), modes)
    return interp_replay(call.cfg, "script", lines=replay.hash_lines(call.fn, e, call.n, call.w))


def interp_replay(cfg, what, **kw):
    d = {"what": what, "cfg": {"target": cfg.target, "U": cfg.U, "O": cfg.O, "asan": cfg.asan,
                               "debug": cfg.debug, "gcc": cfg.gcc, "no128": cfg.no128,
                               "ubsan": cfg.ubsan, "defs": list(cfg.defs)}}
    d.update(kw)
    return {"interp": d}


def trace_of(out, call, s, vals, env):
    """keep one concrete trace for the comparison with the native build"""
    if call.cfg.ubsan or call.cfg.asan:
        return
    vs = bv.evaluate(list(vals) + list(s.pc) + list(call.c.assume), env)
    k = len(vals)
    if any(v != 1 for v in vs[k:]):
        return
    e = shifted(call, env)
    lines = replay.hash_lines(call.fn, e, call.n, call.w)
    v = vs[:k] + [0] * (2 - k)
    out.traces.append((call.cfg, lines, ["%016x %016x" % tuple(v)]))


def value_task(out, cfg, fn, lens, spec_xor=0, timeout_ms=15000):
    """encoding == specification for every content, seed and address, per length"""
    fails = 0
    for n in lens:
        if core.timeleft() < 2:
            out.add("skipped")
            out.note("skipped (time): %s %s length %d" % (cfg.name, fn, n))
            continue
        try:
            cs = calls(cfg, fn, n)
        except (sx.Unsupported, sx.Limit, sx.NeedSplit) as e:
            out.add("not encoded")
            out.note("not encoded: %s %s length %d: %s" % (cfg.name, fn, n, e))
            continue
        for call in cs:
            out.take(call.c, call.states)
            sp = call.spec()
            if spec_xor:
                sp[0] = bv.xor(sp[0], const(spec_xor, 64))
            envs = envs_for(call)
            for s in call.states:
                if s.status != "ret":
                    out.add("no value on path")
                    continue
                vals = call.values(s)
                pc = call.c.assume + list(s.pc)
                for i, (a, b) in enumerate(zip(vals, sp)):
                    r = eqv.equal(a, b, pc, 1500 if fails > 2 else timeout_ms,
                                  [e for e in envs] , deadline=core.DEADLINE[0])
                    out.add(r.status)
                    if r.status == "cex":
                        d = env_addr(call, r.env)
                        out.candidates.append(core.Candidate(
                            "wrong value", cfg.name, fn,
                            "length %d, address %#x, seed %#x%s" %
                            (n, d, r.env.syms.get("seed", 0), ", high half" if i else ""),
                            value_replay(call, r.env)))
                        fails += 1
                    elif r.status == "unknown":
                        fails += 1
                        out.note("undecided: %s %s length %d" % (cfg.name, fn, n))
                if len(out.traces) < 3:
                    trace_of(out, call, s, vals, envs[2 + n % (len(envs) - 2)])
            if len(out.samples) < 1 and n > 3:
                s = call.states[0]
                out.samples.append({"config": cfg.name, "function": fn, "length": n,
                                    "paths": len(call.states),
                                    "result_term": bv.pretty(call.values(s)[0], 3)[:300],
                                    "path_condition": [bv.pretty(x, 3)[:120] for x in s.pc][:4]})
        if len(out.candidates) >= 3:
            return


def canary_task(out, cfg, fn, n):
    """vacuity guard: a deliberately wrong specification must be refuted"""
    sub = core.Out()
    value_task(sub, cfg, fn, [n], spec_xor=1)
    if sub.count.get("cex", 0) and not sub.count.get("proved", 0) or \
            (fn == "t1ha2_atonce128" and sub.count.get("cex", 0)):
        out.add("canary refuted")
    else:
        out.add("canary NOT refuted")
        out.note("canary: wrong specification was not refuted for %s %s %d" % (cfg.name, fn, n))


def prelude_task(out, cfg, prime):
    """contract of the portable 64x64 multiplication for one prime"""
    p = prog(cfg)
    for m in p.modules:
        for name, f in m.funcs.items():
            if not f.internal or len(f.args) != 3:
                continue
            ts = [m.resolve(a[0]) for a in f.args]
            if ts[0] != ("i", 64) or ts[1] != ("i", 64) or ts[2][0] != "ptr" or \
                    m.resolve(f.ret) != ("i", 64):
                continue
            ok = sx.prove_product(p, f, prime)
            out.add("product contract proved" if ok else "product contract open")


def preludes(ck, cfgs):
    seen = set()
    for cfg in cfgs:
        if cfg.name in core.PROGS and (cfg.bits == 32 or cfg.no128):
            key = (cfg.big, cfg.gcc, cfg.target)
            if cfg.big in seen:
                continue
            seen.add(cfg.big)
            for k in spec.P:
                ck.task("product %s %x" % (cfg.name, k), prelude_task, cfg=cfg, prime=k)


def chunks(xs, k):
    xs = list(xs)
    return [xs[i:i + k] for i in range(0, len(xs), k)]
