"""Absorbing a block is injective in every word of the block and of the state."""
from .streamval import *

NAMES = ["W0", "W1", "W2", "W3"] + list(WORDS)
LEAVES = 80


def absorb(cfg, p, low=None):
    """end states of a call that completes one block; -> [(states' pc, outputs)],
    outputs over the words W0..W3, Sa..Sd"""
    us = upds(cfg, p, 32 - p)
    out = []
    for u in us:
        m = {}
        for i in range(32):
            src = u.B[i] if i < p else u.mem.byte(const(i - p, u.w))
            m[src] = ext(sym("W%d" % (i // 8), 64), 8 * (i % 8) + 7, 8 * (i % 8))
        for s in u.states:
            if s.status != "ret":
                continue
            got = u.lay.get(u.c, s.mem[u.o.id])
            pc = u.c.assume + list(s.pc)
            r = bv.substitute(got["s"] + pc, m)
            out.append((u, r[4:], r[:4]))
    return us, out


def peel(l, r):
    """l == r as an equivalent, simpler pair"""
    for _ in range(40):
        if l is r:
            return None
        if l.op == "xor" or r.op == "xor":
            if not l.k or isinstance(l.k, int):
                a, b = xparts(l), xparts(r)
                com = [x for x in a if x in b]
                if com:
                    for x in com:
                        a.remove(x)
                        b.remove(x)
                    l2, r2 = xjoin(a, l.w), xjoin(b, l.w)
                    if (l2, r2) != (l, r):
                        l, r = l2, r2
                        continue
        d, c = bv.linear(bv.sub(l, r))
        if not d:
            return (const(c, l.w), const(0, l.w)) if c else None
        if len(d) == 2:
            (u, k), (v, j) = sorted(d.items(), key=lambda t: t[0].id)
            if (k + j) & mask(l.w) == 0 and k & 1:
                # k is odd, so it has an inverse modulo 2^w
                inv = pow(k, -1, 1 << l.w)
                l2, r2 = u, bv.sub(v, const(c * inv, l.w))
                if {l2, r2} != {l, r}:
                    l, r = l2, r2
                    continue
        if len(d) == 1:
            (u, k), = d.items()
            if k & 1:
                inv = pow(k, -1, 1 << l.w)
                l2, r2 = u, const(-c * inv, l.w)
                if {l2, r2} != {l, r}:
                    l, r = l2, r2
                    continue
        return l, r
    return l, r


mask = bv.mask


def xparts(n):
    if n.op != "xor":
        return [n]
    xs = list(n.args)
    if n.k:
        xs.append(const(n.k, n.w))
    return xs


def xjoin(xs, w):
    r = const(0, w)
    for x in xs:
        r = bv.xor(r, x)
    return r


def conditions(roots):
    """conditions of ites, innermost last"""
    out = []
    for n in bv.topo(roots):
        if n.op == "ite" and n.args[0] not in out:
            out.append(n.args[0])
    return out


def resolve(roots, c, v):
    """replace the ites on c by the branch for c == v"""
    m = {}
    for n in bv.topo(roots):
        if n.op == "ite" and n.args[0] is c:
            m[n] = n.args[1] if v else n.args[2]
    return bv.substitute(roots, m) if m else roots


class Giveup(Exception):
    pass


def collide(out, fa, pa, fb, pb, ne, count):
    """an assignment with equal outputs, False if none exists, None if unknown"""
    count[0] += 1
    if count[0] > LEAVES or core.timeleft() < 2:
        raise Giveup()
    eqs = []
    for a, b in zip(fa, fb):
        r = peel(a, b)
        if r is not None:
            eqs.append(bv.eq(*r))
    cs = conditions(fa + fb)
    if not cs:
        goal = pa + pb + eqs + [ne]
        r, m = smt.check(goal, 6000)
        if r == "unsat":
            return False
        if r == "sat":
            return eqv.model_env(m, goal + fa + fb)
        return None
    c = cs[0]
    unk = False
    for v in (True, False):
        a = resolve(fa + pa, c, v)
        b = resolve(fb + pb, c, v)
        k = len(fa)
        lit = c if v else bv.not_(c)
        if not smt.feasible(pa + pb + [lit, ne]):
            continue
        r = collide(out, a[:k], a[k:] + [lit], b[:k], b[k:], ne, count)
        if r:
            return r
        unk |= r is None
    return None if unk else False


class Fresh:
    """init, then p bytes and the rest of one block; whatever the context's
    representation"""

    def __init__(self, cfg, p):
        pr = prog(cfg)
        self.w, self.low, self.p = pr.ptrw, None, p
        self.c, o, st = fresh_ctx(pr, ctx_size(pr))
        c = self.c
        sts = [one(c.run(c.start("t1ha2_init", [o.base, sym("Sx", 64), sym("Sy", 64)], st)),
                   "init")]
        for i, n in enumerate((p, 32 - p)):
            base = bv.concat(sym("Dh%d" % i, self.w - 6), const(0, 6))
            d = c.new_obj(None, "data", "data", None, default=("array", "M%d" % i), base=base)
            c.assume += [ule(const(8192, self.w), base),
                         ule(base, const((1 << self.w) - 16384, self.w))]
            c.data_atom, c.data_len = base.args[0], n
            nxt = []
            for s in sts:
                s.mem[d.id] = d
                s.status = "run"
                nxt += [x for x in c.run(c.start("t1ha2_update", [o.base, base, const(n, self.w)],
                                                 s)) if x.status == "ret"]
            sts = nxt
        self.states, self.o = sts, o
        self.D = const(0, self.w)

    def ends(self):
        m = {}
        for i in range(32):
            src = bv.sel("M0", const(i, self.w)) if i < self.p else \
                bv.sel("M1", const(i - self.p, self.w))
            m[src] = ext(sym("W%d" % (i // 8), 64), 8 * (i % 8) + 7, 8 * (i % 8))
        r = []
        for s in self.states:
            o = s.mem[self.o.id]
            f = []
            for k in range(0, o.size, 8):
                bs = self.c.load_bytes(o, k, min(8, o.size - k))
                if not all(b.op == "const" or b.op == "sym" for b in bs):
                    f.append(self.c.join(bs))
            # what is left of the message in the buffer proves nothing
            f = [x for x in f if any(y.op in ("sum", "mul", "uf") for y in bv.topo([x]))]
            if len(f) != 4:
                raise sx.Unsupported("context layout: %d computed words" % len(f))
            g = bv.substitute(f + self.c.assume + list(s.pc), m)
            r.append((self, g[4:], g[:4]))
        return r


def inject_task(out, cfg, p, words, lose=None):
    try:
        us, ends = absorb(cfg, p)
    except sx.Unsupported as e:
        out.note("%s: %s; blocks after t1ha2_init() only" % (cfg.name, e))
        us = [Fresh(cfg, p)]
        ends = us[0].ends()
        words = [x for x in words if x in NAMES[:4]]
    for u in us:
        out.take(u.c, u.states)
    groups = {}
    for u, pc, f in ends:
        if lose is not None:
            f = [bv.substitute([x], {sym("W1", 64): const(0, 64)})[0] for x in f]
        groups.setdefault(u.low, []).append((u, pc, f))
    for x in words:
        old, new = sym(x, 64), sym(x + "'", 64)
        ne = bv.not_(bv.eq(old, new))
        for low, es in groups.items():
            for i, (u, pc, f) in enumerate(es):
                for v, pc2, f2 in es[i:]:
                    g = bv.substitute(list(f2) + list(pc2), {old: new})
                    try:
                        r = collide(out, list(f), list(pc), g[:4], g[4:], ne, [0])
                    except Giveup:
                        r = None
                        out.note("too many cases: %s %s pending %d" % (cfg.name, x, p))
                    out.add("proved" if r is False else "unknown" if r is None else "cex")
                    if r:
                        if lose is None:
                            found(out, cfg, u, p, x, r)
                        return
        if groups and len(out.samples) < 1:
            f = list(groups.values())[0][0][2]
            out.samples.append({"config": cfg.name, "pending": p, "word": x,
                                "first_state_word_after": bv.pretty(f[0], 4)[:200]})


def trace19(out, cfg):
    for pieces in ((32,), (5, 27), (16, 16)):
        ch = Chain(cfg, pieces, True)
        for s in ch.states:
            chain_trace(out, cfg, ch, s)


def bytes_of(e, alt):
    return b"".join(e.syms.get(w + "'" if w == alt and w + "'" in e.syms else w, 0)
                    .to_bytes(8, "little") for w in NAMES[:4])


def found(out, cfg, u, p, x, r):
    scs = []
    for alt in (None, x):
        e = eqv.Env(r.syms, {})
        e.syms = dict(r.syms)
        if alt in WORDS:
            e.syms[x] = r.syms.get(x + "'", 0)
        for k in WORDS:
            e.syms.setdefault(k, 0)
        blk = bytes_of(r, alt)
        for i in range(p):
            e.mem[("B", i)] = blk[i]
        d, = bv.evaluate([u.D], r)
        ops = ["buf 0 %d %d 1 1 5eed" % (32 - p, d & 4095), "set 0 0 " + blk[p:].hex(),
               "update 0 0 0 %d 1" % (32 - p)]
        e.syms.setdefault("T", p)
        scs.append(rep_scenarios(e, p, ops, u.w))
    for a, b in zip(*scs):
        b = [" ".join([t[0], "1"] + t[2:]) if t[0] in ("ctx", "init", "update") and t[1] == "0"
             else " ".join(t) for t in (y.split() for y in b)]
        lines = ["noref"] + a + [y for y in b if not y.startswith("ctx 7")] + ["ctxdiffer"]
        text = "word %s: %#x and %#x give the same state (%d bytes pending)" % (
            x, r.syms.get(x, 0), r.syms.get(x + "'", 0), p)
        out.candidates.append(core.Candidate(
            "lost word", cfg.name, "t1ha2_update", text,
            native_replay(cfg, lines) if replay.native(cfg) else
            interp_replay(cfg, "script", lines=lines), key=("lost word", cfg.name, x)))


def canary19(out, cfg):
    o = core.Out()
    inject_task(o, cfg, 0, ["W1"], lose=True)
    out.add("canary refuted" if o.count.get("cex") else "canary NOT refuted")


def run(ck):
    t = ck.thorough()
    cfgs = [C("x64"), C("m32"), C("x64", U=0), C("x64", U=2), C("m32", U=0), C("x64", no128=True),
            C("s390x"), C("mips"), C("aarch64"), C("x64", debug=True)]
    if t:
        cfgs += [C(x) for x in build.TARGETS if x not in ("x64", "m32", "s390x", "mips",
                                                         "aarch64")]
        cfgs += [C("s390x", U=u) for u in (0, 1, 2)] + [C("mips", U=0), C("m32", U=2)]
    ck.build(cfgs, only=lambda b: b == "t1ha2.c")
    preludes(ck, cfgs)
    for cfg in cfgs:
        for p in (range(32) if t or cfg.name in ("x64", "m32") else (0, 5, 16, 31)):
            ck.task("%s pending %d" % (cfg.name, p), inject_task, cfg=cfg, p=p, words=NAMES)
    for cfg in cfgs[:3] + cfgs[6:8]:
        ck.task("%s traces" % cfg.name, trace19, cfg=cfg)
    ck.task("canary", canary19, cfg=cfgs[0])
    ck.bounds.append("one t1ha2_update() call that completes a block, with 0..31 bytes pending, "
                     "in %d configurations: every state, total, block and pair of values of each "
                     "of the eight 64-bit words, no further bound" % len(cfgs))
    ck.assumptions.append("multiplication by an odd constant modulo 2^64 is undone by its inverse "
                          "(computed and multiplied out each time)")
    ck.go()
    ck.validate()
    ck.confirm()
