"""Streaming values: every operation, from an arbitrary state, agrees with the
byte-string meaning of the stream (so does every history, by induction on it)."""
from .stream import *

M64 = bv.mask(64)


def lift_state(S, rng, tries=6):
    """seeds and one block that bring a fresh stream to state words S, or None"""
    inv = lambda k: pow(spec.P[k], -1, 1 << 64)
    ror = lambda x, r: (x >> r | x << (64 - r)) & M64
    for _ in range(tries):
        x, y = rng.getrandbits(64), rng.getrandbits(64)
        a, b, c, d = [n.k for n in spec.Stream(const(x, 64), const(y, 64)).s]
        w1 = ror(((S[3] ^ d) - b) & M64, 26)
        w0 = ror(((S[2] ^ c) - a) & M64, 7)
        k1 = (inv(6) * (S[1] ^ b) - w1) & M64
        k2 = (inv(5) * (S[0] ^ a) - w0) & M64
        # rotr(u,19) + v = k1 + d ; rotr(v,56) + u = k2 + c   (u = w3+c, v = w2+d)
        v = sym("v", 64)
        u = bv.sub(const((k2 + c) & M64, 64), bv.rotr(v, 56))
        r, m = smt.check([bv.eq(add(bv.rotr(u, 19), v), const((k1 + d) & M64, 64))], 8000,
                         kind="replay")
        if r != "sat":
            continue
        vv = m.val(v)
        w2 = (vv - d) & M64
        w3 = ((k2 + c) - ror(vv, 56) - c) & M64
        blk = b"".join(w.to_bytes(8, "little") for w in (w0, w1, w2, w3))
        got = spec.t2_step([const(t, 64) for t in (a, b, c, d)], spec.Mem(64, data=blk), 0)
        if [g.k for g in got] == list(S):
            return x, y, blk
    return None


def tail_lines(ctx="0"):
    return ["copy %s 7" % ctx, "final %s 0" % ctx, "final 7 1"]


def rep_scenarios(env, p, ops, w):
    """ways to reach the state of an assignment through the public interface,
    then `ops` (lines using buffer 0)"""
    import random
    rng = random.Random(7)
    pend = bytes(env.byte("B", i) for i in range(p))
    head = ["ctx 0 0 1", "ctx 7 32 2"]
    buf1 = ["buf 1 32 3 1 1 7"] + (["set 1 0 " + pend.hex()] if p else [])
    feed = ["update 0 1 0 %d 1" % p] if p else []
    sx_, sy_ = env.syms.get("Sx", 11), env.syms.get("Sy", 13)
    T = env.syms.get("T", p)
    plain = head + buf1 + ["init 0 %x %x" % (sx_, sy_)] + feed + ops
    out = []
    if T != p and T % 32 == p and T < (1 << 33):
        bulk = (T - p) // 32 * 32
        if w == 64 or bulk < 1 << 32:
            out.append(head + buf1 + ["buf 2 %d 0 0 0 0" % bulk, "init 0 %x %x" % (sx_, sy_),
                                      "update 0 2 0 %d 1" % bulk] + feed + ops)
        if bulk >= 1 << 24:
            k = 1 << 20
            while bulk % k:
                k >>= 1
            out.append(head + buf1 + ["buf 2 %d 0 0 0 3" % k, "init 0 %x %x" % (sx_, sy_),
                                      "update 0 2 0 %d %d" % (k, bulk // k)] + feed + ops)
    out.append(plain)
    if all(x in env.syms for x in WORDS):
        l = lift_state([env.syms[x] for x in WORDS], rng)
        if l:
            x, y, blk = l
            out.append(head + buf1 + ["buf 2 32 0 1 1 9", "set 2 0 " + blk.hex(),
                                      "init 0 %x %x" % (x, y), "update 0 2 0 32 1"] + feed + ops)
    return out


HINTS = ((lambda T, p: [bv.eq(T, const(p, 64))]),
         (lambda T, p: [bv.eq(T, const((1 << 32) - 32 + p, 64))]),
         (lambda T, p: [bv.eq(T, const((1 << 32) + p, 64))]),
         (lambda T, p: []))


def refute(a, b, pc, rep, envs=None):
    """counterexamples to a == b, more easily reachable totals first"""
    out = []
    for h in HINTS:
        es = None
        hp = h(rep.T, rep.p)
        if hp and hp[0].op == "eq":
            es = eqv.sim_envs(3, {"T": [x.k for x in hp[0].args if x.op == "const"][0]}) \
                if rep.T.op == "sym" else None
        r = eqv.equal(a, b, pc + hp, 3000, es, deadline=core.DEADLINE[0])
        if r.status == "cex":
            out.append(r.env)
            if len(out) >= 2:
                break
    return out


def report(out, kind, cfg, fn, text, scenarios, what=None, modes=("O3", "O0"), interp=None):
    key = (kind, cfg.name, fn)
    if not replay.native(cfg):
        if interp is not None:
            out.candidates.append(core.Candidate(kind, cfg.name, fn, text,
                                                 interp_replay(cfg, "script", lines=scenarios[0],
                                                               **interp), key=key))
        return
    for s in scenarios[:3]:
        out.candidates.append(core.Candidate(kind, cfg.name, fn, text,
                                             native_replay(cfg, s, modes), key=key))


def rep_pairs(lay, got, stream):
    """(code, meaning) pairs that must be equal"""
    k = len(stream.pend)
    return list(zip(got["s"], stream.s)) + \
        [(got["partial"], const(k, got["partial"].w)), (got["total"], stream.total)] + \
        [(got["buf"][i], stream.pend[i]) for i in range(k)]


def bundle(pairs):
    """join byte pairs into one comparison"""
    small = [p for p in pairs if p[0].w == 8]
    big = [p for p in pairs if p[0].w != 8]
    if small:
        big.append((bv.concat(*[p[0] for p in small]), bv.concat(*[p[1] for p in small])))
    return big


def prove_pairs(out, pairs, pc, timeout_ms=8000):
    """-> failing pair with assignment, or None"""
    for a, b in bundle(pairs):
        r = eqv.equal(a, b, pc, timeout_ms, deadline=core.DEADLINE[0])
        if r.status == "cex":
            return a, b, r.env
        if r.status == "unknown":
            out.add("unknown")
            return a, b, None
    return False


def settle(out, pairs, pc):
    """one obligation: all pairs equal"""
    f = prove_pairs(out, pairs, pc)
    if f is False:
        out.add("proved")
        return None
    if f[2] is None:
        return None
    out.add("cex")
    return f


def op_lines(env, u):
    n = u.n
    e = eqv.Env(env.syms, {}, env.seed)
    sh = u.low[1] if u.low else 0
    for (a, o), v in env.mem.items():
        if a == "M":
            e.mem[(a, (o - sh) & bv.mask(u.w))] = v
    d = addr_of(u, env) if not u.null else 0
    if u.null:
        return ["update 0 -1 0 0 1"] + tail_lines()
    return ["buf 0 %d %d 1 1 5eed" % (n, d & 4095)] + set_lines_(e, n, u.w) + \
        ["update 0 0 0 %d 1" % n] + tail_lines()


def set_lines_(e, n, w):
    return replay.set_lines(e.mem, n, w=w)


def step_task(out, cfg, ps, ns, flip=0):
    """t1ha2_update == absorbing the bytes, for every state, total and content"""
    for p in ps:
        for n in ns:
            if core.timeleft() < 2:
                out.add("skipped")
                continue
            us = [Upd(cfg, p, 0, null=True)] if n is None else upds(cfg, p, n)
            for u in us:
                out.take(u.c, u.states)
                sp = u.spec() if n is not None else spec.Stream.at(u.S, u.B, u.T)
                for s in u.states:
                    if s.status != "ret":
                        continue
                    got = u.lay.get(u.c, s.mem[u.o.id])
                    pairs = rep_pairs(u.lay, got, sp)
                    if flip:
                        pairs[0] = (pairs[0][0], bv.xor(pairs[0][1], const(flip, 64)))
                    pc = u.c.assume + list(s.pc)
                    f = settle(out, pairs, pc)
                    if f:
                        sc = []
                        for env in refute(f[0], f[1], pc, u) or [f[2]]:
                            sc += rep_scenarios(env, p, op_lines(env, u), u.w)
                        report(out, "wrong streaming state", cfg, "t1ha2_update",
                               "%d pending bytes, then a piece of %s" % (p, n), sc, interp={})
                        if len(out.candidates) > 3:
                            return


def init_task(out, cfg):
    p = prog(cfg)
    lay = layout(cfg)
    c, o, st = fresh_ctx(p, lay.size, default=("array", "G"))
    st = one(c.run(c.start("t1ha2_init", [o.base, sym("Sx", 64), sym("Sy", 64)], st)), "init")
    out.take(c, [st])
    sp = spec.Stream(sym("Sx", 64), sym("Sy", 64))
    got = lay.get(c, st.mem[o.id])
    f = settle(out, rep_pairs(lay, got, sp), list(st.pc))
    if f:
        e = f[2]
        report(out, "wrong initial state", cfg, "t1ha2_init", "seeds %#x %#x" % (
            e.syms.get("Sx", 0), e.syms.get("Sy", 0)),
            [["ctx 0 0 1", "ctx 7 32 2", "buf 0 40 3 1 1 5"] +
             ["fillctx 0 " + bytes(e.byte("G", i) for i in range(lay.size)).hex()] +
             ["init 0 %x %x" % (e.syms.get("Sx", 0), e.syms.get("Sy", 0)), "update 0 0 0 40 1"] +
             tail_lines()], interp={})


def final_task(out, cfg, ps, flip=0):
    for p in ps:
        for wide in (False, True):
            if core.timeleft() < 2:
                out.add("skipped")
                continue
            f = Fin(cfg, p, wide)
            out.take(f.c, f.states)
            sp = f.spec()
            if flip:
                sp[0] = bv.xor(sp[0], const(flip, 64))
            for s in f.states:
                if s.status != "ret":
                    continue
                pc = f.c.assume + list(s.pc)
                bad = settle(out, list(zip(f.values(s), sp)), pc)
                if bad:
                    sc = []
                    for env in refute(bad[0], bad[1], pc, f) or [bad[2]]:
                        sc += rep_scenarios(env, p, tail_lines(), f.w)
                    report(out, "wrong streaming value", cfg, "t1ha2_final",
                           "%d pending bytes, %s" % (p, "128 bits" if wide else "64 bits"), sc,
                           interp={})
                elif len(out.samples) < 1:
                    out.samples.append({"config": cfg.name, "function": "t1ha2_final",
                                        "pending": p, "wide": wide,
                                        "result_term": bv.pretty(f.values(s)[0], 3)[:300]})
                if len(out.candidates) > 3:
                    return


class Chain:
    """init, pieces, final through the public interface"""

    def __init__(self, cfg, pieces, wide, lows=None, default=("uninit",)):
        p = prog(cfg)
        self.cfg, self.pieces, self.wide, self.w = cfg, pieces, wide, p.ptrw
        c, o, st = fresh_ctx(p, ctx_size(p), default=default)
        self.c = c
        st = one(c.run(c.start("t1ha2_init", [o.base, sym("Sx", 64), sym("Sy", 64)], st)), "init")
        states = [st]
        off = 0
        msg = []
        for i, n in enumerate(pieces):
            arr = "M%d" % i
            base = bv.concat(sym("Dh%d" % i, self.w - 6), const(0, 6))
            nxt = []
            d = c.new_obj(None, "data", "data", None, default=("array", arr), base=base)
            lo = (lows or (3, 0, 5, 1, 7, 2, 6, 4))[i % 8]
            D = add(base, const(lo, self.w))
            c.assume += [ule(const(8192, self.w), base),
                         ule(base, const((1 << self.w) - 8192 - n - 64, self.w))]
            c.data_atom, c.data_len = sym("Dh%d" % i, self.w - 6), n + 64
            for s in states:
                s.mem[d.id] = d
                s.status = "run"
                nxt += [x for x in c.run(c.start("t1ha2_update", [o.base, D, const(n, self.w)], s))
                        if x.status == "ret"]
            states = nxt
            msg += [bv.sel(arr, const(lo + j, self.w)) for j in range(n)]
        self.msg = msg
        e = const(0, self.w)
        self.extra = None
        if wide:
            self.extra = c.new_obj(None, "extra", "extra", 8, align=8, default=("array", "X"))
            e = self.extra.base
            for s in states:
                s.mem[self.extra.id] = self.extra
        fin = []
        for s in states:
            s.status = "run"
            fin += [x for x in c.run(c.start("t1ha2_final", [o.base, e], s)) if x.status == "ret"]
        self.states = fin

    def values(self, s):
        v = [s.value]
        if self.extra is not None:
            v.append(self.c.join(self.c.load_bytes(s.mem[self.extra.id], 0, 8)))
        return v

    def spec(self):
        return list(spec.Stream(sym("Sx", 64), sym("Sy", 64)).absorb(self.msg).final(self.wide))

    def lines(self, env, lows=(3, 0, 5, 1, 7, 2, 6, 4)):
        ls = ["ctx 0 0 1", "ctx 7 32 2", "init 0 %x %x" % (env.syms.get("Sx", 0),
                                                           env.syms.get("Sy", 0))]
        for i, n in enumerate(self.pieces):
            lo = lows[i % 8]
            bs = bytes(env.byte("M%d" % i, lo + j) for j in range(n))
            ls += ["buf %d %d %d 1 1 5" % (i, n, lo)] + \
                (["set %d 0 %s" % (i, bs.hex())] if n else []) + ["update 0 %d 0 %d 1" % (i, n)]
        return ls + tail_lines()


def chain_trace(out, cfg, ch, s):
    if len(out.traces) < 6 and not cfg.asan and not cfg.ubsan and not s.pc:
        env = eqv.Env(seed=17 + len(out.traces))
        v = bv.evaluate(ch.values(s), env)
        ls = ch.lines(env)[:-3] + ["final 0 %d" % (1 if ch.wide else 0)]
        out.traces.append((cfg, ls, ["%016x %016x" % (v[0], v[1] if ch.wide else 0)]))


def chain_task(out, cfg, chains):
    for pieces in chains:
        for wide in (False, True):
            ch = Chain(cfg, pieces, wide)
            out.take(ch.c, ch.states)
            sp = ch.spec()
            for s in ch.states:
                pc = ch.c.assume + list(s.pc)
                f = settle(out, list(zip(ch.values(s), sp)), pc)
                if f:
                    report(out, "wrong streaming value", cfg, "t1ha2_init/update/final",
                           "pieces %s" % (pieces,), [ch.lines(f[2])], interp={})
                chain_trace(out, cfg, ch, s)
            if len(out.candidates) > 3:
                return


CHAINS = [(0,), (1,), (31,), (32,), (33,), (5, 27), (5, 28), (31, 1), (31, 33), (7, 64), (40, 3),
          (0, 9, 0), (3, 4, 5, 30), (17, 31, 31), (100,), (64, 64), (1, 1, 1, 1, 1, 1, 1), (30, 40, 50)]


def canary(out, cfg):
    a, b = core.Out(), core.Out()
    step_task(a, cfg, [7], [40], flip=1)
    final_task(b, cfg, [9], flip=1 << 20)
    ok = a.count.get("cex", 0) and b.count.get("cex", 0)
    out.add("canary refuted" if ok else "canary NOT refuted")


def stream_values(ck, cfgs, nmax, chains=True):
    preludes(ck, cfgs)
    for cfg in cfgs:
        ck.task("%s init" % cfg.name, init_task, cfg=cfg)
        for ps in chunks(range(32), 4):
            ck.task("%s final %s" % (cfg.name, ps), final_task, cfg=cfg, ps=ps)
            for ns in chunks([None] + list(range(0, nmax + 1)), 24):
                ck.task("%s update %s %s" % (cfg.name, ps, ns[0]), step_task, cfg=cfg, ps=ps,
                        ns=ns)
        if chains:
            for ch in chunks(CHAINS, 6):
                ck.task("%s chain" % cfg.name, chain_task, cfg=cfg, chains=ch)
        ck.bounds.append("%s: init from any context content; update from any state words, any "
                         "total, every number of pending bytes 0..31, every content and address, "
                         "piece lengths 0..%d; final from any such state, 64 and 128 bits; hence "
                         "(induction over the calls) every history of such pieces" %
                         (cfg.name, nmax))
    ck.task("canary", canary, cfg=cfgs[0])
