"""Whole-function claims for every length, by induction over the block loop."""
from .common import *
from .. import induct

Q0 = 3          # obligations: the first number of blocks (AES, update: 2)


class Big(Call):
    """one at-once call whose length is q*L + r, q symbolic"""

    def __init__(self, cfg, fn, lb, r, low=None, arr="M"):
        self.cfg, self.fn, self.lb, self.r, self.low = cfg, fn, lb, r, low
        p = prog(cfg)
        self.w = w = p.ptrw
        self.c = c = sx.Ctx(p, max_steps=60000)
        self.h = spec.HASHES[fn]
        st = sx.State()
        self.seed = sym("seed", 64)
        self.q = sym("q", w - lb)
        self.n = self.lenn = bv.concat(self.q, const(r, lb))
        self.mem = spec.Mem(w, arr)
        place(self, st, arr)
        args = [self.D, self.lenn, self.seed]
        self.extra = None
        if fn == "t1ha2_atonce128":
            self.extra = c.new_obj(st, "extra", "extra", 8, align=8, default=("array", "X"))
            args = [self.extra.base] + args
        self.state = c.start(fn, args, st)
        if (1 << lb) > self.h.L:
            self.unit = (self.h.L, lambda ws, o: self.h.step(tuple(ws), self.mem, o))

    def spec0(self):
        s, off = self.h.init(self.mem, self.lenn, True, self.r % self.h.L, self.seed)
        return list(s), off

    def specstep(self, words, off):
        k = (1 << self.lb) // self.h.L
        for i in range(k):
            words = self.h.step(tuple(words), self.mem, add(off, const(i * self.h.L, self.w)))
        return list(words)

    def compare(self, lp, done, words, off, rest):
        words = tuple(words)
        while rest >= self.h.L:
            words = self.h.step(words, self.mem, off)
            off = add(off, const(self.h.L, self.w))
            rest -= self.h.L
        want = self.h.finish(words, self.mem, off, rest, True)
        for s in done:
            for a, b in zip(self.values(s), want):
                lp.same(a, b, s.pc, "result")


def place(u, st, arr):
    c, w = u.c, u.w
    if u.low is None:
        u.D = sym("D", w)
        c.new_obj(st, "data", "data", None, default=("array", arr), base=u.D)
        c.data_atom = u.D
    else:
        k, v = u.low
        A = bv.concat(sym("Dh", w - k), const(0, k))
        c.new_obj(st, "data", "data", None, default=("array", arr), base=A)
        u.D = add(A, const(v, w))
        u.mem = spec._Shift(u.mem, v)
        c.data_atom = sym("Dh", w - k)
    c.data_len, c.data_big = None, u.lenn
    c.assume = [ule(const(8192, w), u.D),
                ule(u.lenn, const((1 << w) - 16384, w)),
                ule(u.D, bv.sub(const((1 << w) - 8192, w), u.lenn))]


class At:
    """a call of symbolic length at one concrete length, for replays"""

    def __init__(self, u, n):
        self.__dict__.update({k: getattr(u, k) for k in ("cfg", "fn", "w", "D", "low", "c")})
        self.p = getattr(u, "p", 0)
        self.n = n
        self.null = False


def at(u, env):
    n, = bv.evaluate([u.lenn], env)
    return At(u, n)


def replayable(u, conds):
    for h in induct.hints(u.lenn):
        r, m = smt.check(u.c.assume + list(conds) + [h], 5000)
        if r == "sat":
            return m


Big.at = at
Big.replayable = replayable


def q_min(fn, L):
    """first number of blocks the induction covers"""
    return 4 if L >= 128 else 12


def attempt(make, q0, values=True):
    """-> list of Loop objects run to a verdict, or raises Unsupported"""
    out = []
    work = [None]
    while work:
        low = work.pop(0)
        try:
            u = make(low)
            lp = induct.Loop(u, q0, values)
            lp.go()
            out.append(lp)
        except sx.NeedSplit:
            if low is not None:
                raise sx.Unsupported("address arithmetic")
            work = [(3, v) for v in range(8)]
            out = []
    return out


def attempts(make, lb, r, q0, values=True):
    """make(low, lb, r); a loop that takes several blocks at a time is tried with
    as many remainders"""
    try:
        return attempt(lambda low: make(low, lb, r), q0, values)
    except induct.Unroll as e:
        L = 1 << lb
        if e.m not in (2, 4, 8) or L * e.m > 512:
            raise sx.Unsupported("stride")
        k = lb + e.m.bit_length() - 1
        lps = []
        for i in range(e.m):
            lps += attempt(lambda low: make(low, k, r + L * i), max(2, -(-q0 // e.m)), values)
        return lps


def value_lines(u, env):
    e = shifted(u, env)
    n, = bv.evaluate([u.lenn], env)
    d = env_addr(u, env)
    mem = {k: v for k, v in e.mem.items()}
    e2 = eqv.Env({"D": d, "seed": e.syms.get("seed", 0) or 0x9E3779B97F4A7C15}, mem)
    ls = replay.hash_lines(u.fn, e2, n, u.w)
    if n > 1 << 20:
        # large buffers start out zero
        for i, o in enumerate((0, (1 << 31) - 32, (1 << 32) - 32, n - 64)):
            if 0 <= o <= n - 64:
                ls[-1:-1] = ["set 0 %d %s" % (o, bytes((37 * k + i + 1) & 255
                                                       for k in range(64)).hex())]
    return n, d, ls


def all_task(out, cfg, fn, lb, rs):
    L = 1 << lb
    for r in rs:
        if core.timeleft() < 2:
            out.add("skipped")
            continue
        try:
            lps = attempts(lambda low, k, m: Big(cfg, fn, k, m, low), lb, r, q_min(fn, L))
        except (sx.Unsupported, sx.Limit, sx.NeedSplit, induct.Unroll, KeyError,
                AttributeError, AssertionError) as e:
            out.add("all lengths: not encoded")
            out.note("all lengths not encoded: %s %s rest %d: %s" % (cfg.name, fn, r, e))
            continue
        for lp in lps:
            u = lp.j
            out.take(u.c, ())
            if not lp.fails and lp.loops:
                out.add("proved", lp.proved)
                out.add("all lengths proved")
                continue
            out.add("all lengths: open")
            out.note("all lengths open: %s %s rest %d: %s" % (
                cfg.name, fn, r, "; ".join(sorted({f.what for f in lp.fails}))[:200]))
            for f in lp.fails:
                if len(out.candidates) >= 2:
                    break
                for env in induct.witnesses(lp, f, 1):
                    n, d, lines = value_lines(u, env)
                    rep = native_replay(cfg, lines, ("O3",)) if replay.native(cfg) else None
                    if rep is None and n < 1 << 20:
                        rep = interp_replay(cfg, "script", lines=lines)
                    if rep is None:
                        continue
                    out.candidates.append(core.Candidate(
                        "wrong value", cfg.name, fn, "length %d, address %#x, seed %#x (%s)" %
                        (n, d, env.syms.get("seed", 0) or 0x9E3779B97F4A7C15, f.what), rep,
                        key=("all lengths", cfg.name, fn)))


def all_lengths(ck, fns, cfgs, rests=None, per=8):
    """queue the inductive claim"""
    for cfg in cfgs:
        if cfg.name not in core.PROGS:
            continue
        for fn in fns:
            if fn in AES and not cfg.x86:
                continue
            L = spec.HASHES[fn].L
            lb = L.bit_length() - 1
            rs = list(rests(fn, cfg) if rests else range(L))
            for ch in chunks(rs, per):
                ck.task("%s %s all lengths, rest %d.." % (cfg.name, fn, ch[0]), all_task,
                        cfg=cfg, fn=fn, lb=lb, rs=ch)
            ck.bounds.append("%s %s: every length >= %d below half the address space%s (induction "
                             "over the block loop)" % (
                                 cfg.name, fn, q_min(fn, L) * L,
                                 "" if len(rs) == L else " with %d of %d remainders mod %d" % (
                                     len(rs), L, L)))


# ------------------------------------------------------------ streaming

class BigUpd:
    """t1ha2_update with q*32 + r bytes on an arbitrary state with p pending"""

    def __init__(self, cfg, p, r, low=None, lb=5):
        from . import stream
        self.rep = stream.Rep(cfg, p)
        self.cfg, self.fn, self.p, self.r, self.lb, self.low = cfg, "t1ha2_update", p, r, lb, low
        self.c, self.w, self.lay, self.o = self.rep.c, self.rep.w, self.rep.lay, self.rep.o
        self.S, self.B, self.T = self.rep.S, self.rep.B, self.rep.T
        self.c.max_steps = 60000
        w = self.w
        self.q = sym("q", w - lb)
        self.n = self.lenn = bv.concat(self.q, const(r, lb))
        self.mem = spec.Mem(w, "M")
        place(self, self.rep.st, "M")
        self.state = self.c.start(self.fn, [self.o.base, self.D, self.lenn], self.rep.st)
        if lb > 5:
            self.unit = (32, lambda ws, o: spec.t2_step(tuple(ws), self.mem, o))

    def spec0(self):
        s = spec.Stream.at(self.S, self.B, self.T)
        k = (32 - self.p) % 32
        if k:
            s._push([self.mem.byte(const(i, self.w)) for i in range(k)])
        return list(s.s), k

    def specstep(self, words, off):
        for i in range((1 << self.lb) // 32):
            words = spec.t2_step(tuple(words), self.mem, add(off, const(32 * i, self.w)))
        return list(words)

    def compare(self, lp, done, words, off, rest):
        words = tuple(words)
        while rest >= 32:
            words = spec.t2_step(words, self.mem, off)
            off = add(off, const(32, self.w))
            rest -= 32
        for s in done:
            g = self.lay.get(self.c, s.mem[self.o.id])
            for a, b in zip(g["s"], words):
                lp.same(a, b, s.pc, "state after the update")
            lp.same(g["partial"], const(rest, g["partial"].w), s.pc, "pending count")
            lp.same(g["total"], add(self.T, bv.zext(self.lenn, 64)), s.pc, "total")
            if rest:
                lp.same(bv.concat(*g["buf"][:rest]),
                        bv.concat(*[self.mem.byte(off, i) for i in range(rest)]), s.pc,
                        "pending bytes")


def upd_all_task(out, cfg, ps, rs, relational):
    from . import streamval
    for p in ps:
        for r in rs:
            if core.timeleft() < 2:
                out.add("skipped")
                continue
            try:
                def make(low, lb, m):
                    return BigUpd(cfg, p, m, low, lb)
                lps = attempts(make, 5, r, 5)
                if any(lp.fails or not lp.loops for lp in lps):
                    l2 = attempts(make, 5, r, 12)
                    if not any(lp.fails or not lp.loops for lp in l2):
                        out.note("all lengths from 384 only: %s update, %d pending, rest %d" %
                                 (cfg.name, p, r))
                        lps = l2
            except (sx.Unsupported, sx.Limit, sx.NeedSplit, induct.Unroll, KeyError,
                    AttributeError, AssertionError) as e:
                out.add("all lengths: not encoded")
                out.note("all lengths not encoded: %s update, %d pending, rest %d: %s" %
                         (cfg.name, p, r, e))
                continue
            for lp in lps:
                u = lp.j
                out.take(u.c, ())
                if not lp.fails and lp.loops:
                    out.add("proved", lp.proved)
                    out.add("all lengths proved")
                    continue
                out.add("all lengths: open")
                out.note("all lengths open: %s update, %d pending, rest %d: %s" % (
                    cfg.name, p, r, "; ".join(sorted({f.what for f in lp.fails}))[:200]))
                for f in lp.fails:
                    if len(out.candidates) >= 3:
                        break
                    for env in induct.witnesses(lp, f, 1):
                        n, = bv.evaluate([u.lenn], env)
                        env.syms["T"] = p
                        for sc in upd_scenarios(env, u, n, relational)[:2]:
                            if replay.native(cfg):
                                rep = native_replay(cfg, sc, ("O3",))
                            elif n < 1 << 20:
                                rep = interp_replay(cfg, "script", lines=sc)
                            else:
                                continue
                            out.candidates.append(core.Candidate(
                                "split dependence" if relational else "wrong streaming state",
                                cfg.name, "t1ha2_update", "%d pending bytes, then a piece of %d "
                                "(%s)" % (p, n, f.what), rep,
                                key=("all lengths", cfg.name, "update")))


def upd_scenarios(env, u, n, relational):
    from . import streamval
    e = shifted(u, env)
    d = env_addr(u, env)
    buf = ["buf 0 %d %d 1 1 5eed" % (n, d & 4095)]
    if n <= 1 << 20:
        buf += replay.set_lines(e.mem, n, w=u.w)
    else:
        for i, o in enumerate((0, (1 << 31) - 32, (1 << 32) - 32, n - 64)):
            if 0 <= o <= n - 64:
                buf.append("set 0 %d %s" % (o, bytes((37 * k + i + 1) & 255
                                                     for k in range(64)).hex()))
    if not relational:
        return streamval.rep_scenarios(env, u.p, buf + ["update 0 0 0 %d 1" % n] +
                                       streamval.tail_lines(), u.w)
    out = []
    for a in (n // 2, 1):
        ops = ["noref"] + buf + ["copy 0 1", "update 0 0 0 %d 1" % n,
                                 "update 1 0 0 %d 1" % a, "update 1 0 %d %d 1" % (a, n - a),
                                 "copy 0 2", "copy 1 3", "final 0 0", "final 1 0", "same",
                                 "final 2 1", "final 3 1", "same"]
        out += [["ctx 1 64 3", "ctx 2 0 4", "ctx 3 32 5"] + x
                for x in streamval.rep_scenarios(env, u.p, ops, u.w)]
    return out


def all_updates(ck, cfgs, relational, rests=range(32), per=2):
    for cfg in cfgs:
        if cfg.name not in core.PROGS:
            continue
        for ps in chunks(range(32), per):
            for rs in chunks(rests, 16):
                ck.task("%s update all lengths %s %d.." % (cfg.name, ps, rs[0]), upd_all_task,
                        cfg=cfg, ps=ps, rs=rs, relational=relational)
        ck.bounds.append("%s: t1ha2_update from any state with 0..31 pending bytes and every piece "
                         "of at least 160 bytes below half the address space (length mod 32: %s), by "
                         "induction over the block loop" % (
                             cfg.name, "any" if len(rests) == 32 else list(rests)))


BigUpd.at = at
BigUpd.replayable = replayable


# ------------------------------------------------------------ obligations

def ob_all_task(out, cfg, what, rs, obs, ps=(0,)):
    """the obligations on accesses and arithmetic, for every length"""
    from . import oblig
    for p in ps:
        for r in rs:
            if core.timeleft() < 2:
                out.add("skipped")
                continue
            try:
                if what == "update":
                    b = 5

                    def make(low, lb, m):
                        return BigUpd(cfg, p, m, low, lb)
                else:
                    b = spec.HASHES[what].L.bit_length() - 1

                    def make(low, lb, m):
                        return Big(cfg, what, lb, m, low)
                lps = attempts(make, b, r, 2 if what in AES or what == "update" else Q0, False)
                if any(lp.fails or not lp.loops for lp in lps):
                    l2 = attempts(make, b, r, 6, False)
                    if not any(lp.fails or not lp.loops for lp in l2):
                        out.note("all lengths from 6 blocks only: %s %s %s rest %d" % (
                            cfg.name, what, p, r))
                        lps = l2
            except (sx.Unsupported, sx.Limit, sx.NeedSplit, induct.Unroll, KeyError,
                    AttributeError, AssertionError) as e:
                out.add("all lengths: not encoded")
                out.note("all lengths not encoded: %s %s rest %d: %s" % (cfg.name, what, r, e))
                continue
            for lp in lps:
                u = lp.j
                u.states = []
                out.take(u.c, ())
                if lp.fails or not lp.loops:
                    out.add("all lengths: open")
                    out.note("all lengths open: %s %s rest %d: %s" % (
                        cfg.name, what, r, "; ".join(sorted({f.what for f in lp.fails}))[:200]))
                    continue
                out.add("all lengths inductive")
                for o in obs:
                    oblig.OBS[o](out, u)
            if len(out.candidates) >= 3:
                return


def ob_all(ck, cfgs, fns, obs, rests, ps=(), urests=(0, 9), aes=True):
    """queue them; rests: length modulo the block size"""
    for cfg in cfgs:
        if cfg.name not in core.PROGS:
            continue
        done = []
        for fn in fns:
            if fn in AES and (not cfg.x86 or not aes):
                continue
            L = spec.HASHES[fn].L
            rs = sorted({x % L for x in rests(L)})
            for ch in chunks(rs, 12):
                ck.task("%s %s all lengths %d.." % (cfg.name, fn, ch[0]), ob_all_task, cfg=cfg,
                        what=fn, rs=ch, obs=obs)
            done.append("%s (%d of %d remainders)" % (fn, len(rs), L))
        if ps:
            for pp in chunks(ps, 8):
                ck.task("%s update all lengths %s" % (cfg.name, pp), ob_all_task, cfg=cfg,
                        what="update", rs=urests, obs=obs, ps=pp)
            done.append("update (%d numbers of pending bytes, %d remainders)" % (len(ps),
                                                                               len(urests)))
        ck.bounds.append("%s: every length of at least %d blocks (AES, update: 2) below half the address space,"
                         " by induction over the block loop: %s" % (cfg.name, Q0, ", ".join(done)))
