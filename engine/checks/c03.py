"""Split independence, relationally: no reference value is used here."""
from .streamval import *
from . import alllen


class Two(Rep):
    """one arbitrary state; the piece fed whole, and fed as a then n-a"""

    def __init__(self, cfg, p, cuts, low=None):
        Rep.__init__(self, cfg, p)
        self.cuts, self.n, self.low = cuts, sum(cuts), low
        c, w, n = self.c, self.w, self.n
        if low is None:
            D = sym("D", w)
            base = D
            c.data_atom = D
            c.data_len = n
        else:
            k, v = low
            c.data_atom = sym("Dh", w - k)
            base = bv.concat(c.data_atom, const(0, k))
            D = add(base, const(v, w))
            c.data_len = n + 64
        c.new_obj(self.st, "data", "data", None, default=("array", "M"), base=base)
        self.D = D
        c.assume = [ule(const(8192, w), D), ule(D, const((1 << w) - 8192 - n, w))]
        self.whole = self.feed(self.st.clone(), [n])
        self.split = self.feed(self.st.clone(), cuts)

    def feed(self, st, pieces):
        c, w = self.c, self.w
        states = [st]
        off = 0
        for n in pieces:
            nxt = []
            for s in states:
                s.status = "run"
                nxt += c.run(c.start("t1ha2_update", [self.o.base, add(self.D, const(off, w)),
                                                      const(n, w)], s))
            states = [s for s in nxt if s.status == "ret"]
            off += n
        return states


def twos(cfg, p, cuts):
    try:
        return [Two(cfg, p, cuts)]
    except sx.NeedSplit:
        return [Two(cfg, p, cuts, low=(3, v)) for v in range(8)]


def split_lines(env, t, scenarios=True):
    e = eqv.Env(env.syms, {}, env.seed)
    sh = t.low[1] if t.low else 0
    for (a, o), v in env.mem.items():
        if a == "M":
            e.mem[(a, (o - sh) & bv.mask(t.w))] = v
    d = addr_of(t, env)
    n = t.n
    ops = ["noref", "buf 0 %d %d 1 1 5eed" % (n, d & 4095)] + set_lines_(e, n, t.w)
    ops += ["copy 0 1"]
    ops += ["update 0 0 0 %d 1" % n]
    off = 0
    for k in t.cuts:
        ops.append("update 1 0 %d %d 1" % (off, k))
        off += k
    ops += ["copy 0 2", "copy 1 3", "final 0 0", "final 1 0", "same", "final 2 1", "final 3 1",
            "same"]
    more = ["ctx 1 64 3", "ctx 2 0 4", "ctx 3 32 5"]
    return [more + s for s in rep_scenarios(env, t.p, ops, t.w)]


def split_task(out, cfg, ps, ns, cutf):
    for p in ps:
        for n in ns:
            for cuts in cutf(p, n):
                if core.timeleft() < 2:
                    out.add("skipped")
                    continue
                for t in twos(cfg, p, list(cuts)):
                    out.take(t.c, t.whole)
                    out.take(t.c, t.split)
                    for a in t.whole:
                        for b in t.split:
                            pc = t.c.assume + list(a.pc) + [x for x in b.pc if x not in a.pc]
                            ga = t.lay.get(t.c, a.mem[t.o.id])
                            gb = t.lay.get(t.c, b.mem[t.o.id])
                            k = (p + n) % 32
                            pairs = list(zip(ga["s"], gb["s"])) + \
                                [(ga["partial"], gb["partial"]), (ga["total"], gb["total"])] + \
                                list(zip(ga["buf"][:k], gb["buf"][:k]))
                            f = settle(out, pairs, pc)
                            if f:
                                sc = []
                                for env in refute(f[0], f[1], pc, t) or [f[2]]:
                                    sc += split_lines(env, t)
                                report(out, "split dependence", cfg, "t1ha2_update",
                                       "%d pending bytes, %d bytes at once or as %s" %
                                       (p, n, cuts), sc)
                    if len(out.candidates) > 3:
                        return


def bytewise(p, n):
    """by induction on n these two give every split"""
    return [(1, n - 1)] if n > 1 else []


def halves(p, n):
    r = (32 - p) % 32
    cs = {(n - 1, 1), (n // 2, n - n // 2), (0, n), (n, 0)}
    if 0 < r < n:
        cs.add((r, n - r))
        cs.add((r - 1, n - r + 1))
    return [c for c in sorted(cs) if min(c) >= 0 and n]


def junk_task(out, cfg, ps):
    """what lies in the unused part of the buffer has no influence: neither on
    a final value nor on the state after an update"""
    for p in ps:
        for wide in (False, True):
            f = Fin(cfg, p, wide)
            out.take(f.c, f.states)
            junk(out, f, [(f.values(s), s) for s in f.states if s.status == "ret"], cfg,
                 "t1ha2_final", p, 0)
        for n in (1, 31 - p, 32 - p, 33 - p, 64, 70):
            if n <= 0:
                continue
            for u in upds(cfg, p, n):
                out.take(u.c, u.states)
                vs = []
                for s in u.states:
                    g = u.lay.get(u.c, s.mem[u.o.id])
                    k = (p + n) % 32
                    vs.append((list(g["s"]) + [g["partial"], g["total"]] + g["buf"][:k], s))
                junk(out, u, vs, cfg, "t1ha2_update", p, n)


def junk(out, u, vs, cfg, fn, p, n):
    for vals, s in vs:
        ls = [x for x in bv.leaves(list(vals) + list(s.pc)) if x.op == "sym" and
              x.k.startswith("uninit_")]
        if not ls:
            smt.check([bv.FALSE])
            out.add("proved")
            continue
        ren = {x: sym(x.k + "'", x.w) for x in ls}
        v2 = bv.substitute(list(vals) + list(s.pc), ren)
        pc = u.c.assume + list(s.pc) + v2[len(vals):]
        f = settle(out, list(zip(vals, v2)), pc)
        if f:
            env = f[2]
            # the same state reached with different bytes left in the buffer
            d = ["noref", "ctx 1 64 3", "ctx 2 0 4", "ctx 3 32 5"]
            pend = bytes(env.byte("B", i) for i in range(p))
            d += ["buf 0 4096 8 1 1 5eed", "buf 1 64 3 1 1 7", "buf 2 32 3 1 1 8", "buf 3 32 3 1 1 9"]
            d += ["ctx 0 0 1"]
            for c in (0, 1):
                # same block content, different earlier fill of the buffer's rest
                d += ["init %d 5 6" % c]
            if p:
                d += ["set 1 0 " + pend.hex()]
            # whole block given directly, or through the buffer
            d += ["update 0 0 0 32 1", "update 1 0 0 3 1", "update 1 0 3 29 1"]
            for c in (0, 1):
                if p:
                    d += ["update %d 1 0 %d 1" % (c, p)]
                if n:
                    d += ["update %d 0 64 %d 1" % (c, n)]
            d += ["copy 0 2", "copy 1 3", "final 0 0", "final 1 0", "same", "final 2 1",
                  "final 3 1", "same"]
            report(out, "stale buffer bytes matter", cfg, fn, "%d pending bytes, piece %d" % (p, n),
                   [d])


def empty_task(out, cfg, ps):
    """a zero-length update changes nothing, whatever its pointer"""
    for p in ps:
        for u in [Upd(cfg, p, 0, null=True)] + upds(cfg, p, 0):
            out.take(u.c, u.states)
            for s in u.states:
                if s.status != "ret":
                    continue
                g = u.lay.get(u.c, s.mem[u.o.id])
                pairs = list(zip(g["s"], u.S)) + [
                    (g["partial"], const(p, g["partial"].w)), (g["total"], u.T)] + \
                    list(zip(g["buf"], u.B))
                f = settle(out, pairs, u.c.assume + list(s.pc))
                if f:
                    ops = ["noref", "buf 0 0 5 1 1 5eed", "copy 0 1"] + \
                        ["update 0 %d 0 0 1" % (-1 if u.null else 0)] + \
                        ["copy 0 2", "copy 1 3", "final 0 0", "final 1 0", "same", "final 2 1",
                         "final 3 1", "same"]
                    sc = [["ctx 1 64 3", "ctx 2 0 4", "ctx 3 32 5"] + x
                          for x in rep_scenarios(f[2], p, ops, u.w)]
                    report(out, "empty update has an effect", cfg, "t1ha2_update",
                           "%d pending bytes" % p, sc)


def canary3(out, cfg):
    """dropping a byte must be noticed"""
    t = twos(cfg, 5, [1, 39])[0]
    ga = t.lay.get(t.c, t.whole[0].mem[t.o.id])
    st = t.feed(t.st.clone(), [1, 38])
    gb = t.lay.get(t.c, st[0].mem[t.o.id])
    f = settle(core.Out(), [(ga["total"], gb["total"])], [])
    g = settle(core.Out(), list(zip(ga["s"], [bv.xor(x, const(1, 64)) for x in gb["s"]])), [])
    out.add("canary refuted" if f and g else "canary NOT refuted")


def api_task(out, cfg, splits):
    """whole calls init .. final compared directly (no assumption on the
    context's layout)"""
    for pieces in splits:
        for wide in (False, True):
            a = Chain(cfg, pieces, wide)
            b = Chain(cfg, [sum(pieces)], wide)
            out.take(a.c, a.states)
            out.take(b.c, b.states)
            # name the bytes of both messages alike
            ren = {x: bv.sel("W", const(i, a.w)) for i, x in enumerate(a.msg)}
            rnb = {x: bv.sel("W", const(i, a.w)) for i, x in enumerate(b.msg)}
            for s in a.states:
                chain_trace(out, cfg, a, s)
                va = bv.substitute(a.values(s) + list(s.pc), ren)
                for t in b.states:
                    vb = bv.substitute(b.values(t) + list(t.pc), rnb)
                    k = len(a.values(s))
                    f = settle(out, list(zip(va[:k], vb[:k])), va[k:] + vb[k:])
                    if f:
                        e = f[2]
                        m = bytes(e.byte("W", i) for i in range(sum(pieces)))
                        ls = ["noref"] + ["ctx %d %d %d" % (i, 32 * i, i) for i in range(4)]
                        ls += ["buf 0 %d 3 1 1 5" % len(m)] + (["set 0 0 " + m.hex()] if m else [])
                        for c in (0, 1):
                            ls += ["init %d %x %x" % (c, e.syms.get("Sx", 0), e.syms.get("Sy", 0))]
                        ls += ["update 0 0 0 %d 1" % len(m)]
                        off = 0
                        for n in pieces:
                            ls += ["update 1 0 %d %d 1" % (off, n)]
                            off += n
                        ls += ["copy 0 2", "copy 1 3", "final 0 0", "final 1 0", "same",
                               "final 2 1", "final 3 1", "same"]
                        report(out, "split dependence", cfg, "t1ha2_update",
                               "pieces %s" % (pieces,), [ls])


def run(ck):
    cfgs = [C("x64"), C("m32"), C("x64", gcc=False)]
    ck.build(cfgs)
    preludes(ck, cfgs)
    nmax = 160 if not ck.thorough() else 260
    for cfg in cfgs:
        for ps in chunks(range(32), 4):
            for ns in chunks(range(2, nmax + 1), 24):
                ck.task("%s split %s %s" % (cfg.name, ps, ns[0]), split_task, cfg=cfg, ps=ps,
                        ns=ns, cutf=bytewise)
            ck.task("%s junk %s" % (cfg.name, ps), junk_task, cfg=cfg, ps=ps)
        for ps in chunks(range(32), 8):
            ck.task("%s splits %s" % (cfg.name, ps), split_task, cfg=cfg, ps=ps,
                    ns=[1, 2, 3, 31, 32, 33, 47, 63, 64, 65, 80], cutf=halves)
            ck.task("%s empty %s" % (cfg.name, ps), empty_task, cfg=cfg, ps=ps)
        for ch in chunks([c for c in CHAINS if len(c) > 1], 5):
            ck.task("%s api" % cfg.name, api_task, cfg=cfg, splits=ch)
        ck.bounds.append("%s: from any state with 0..31 pending bytes, any content and address: a "
                         "piece of 2..%d bytes at once == its first byte, then the rest (hence, by "
                         "induction, every split of such pieces); zero-length updates with any "
                         "pointer; bytes left unused in the buffer without influence" %
                         (cfg.name, nmax))
    alllen.all_updates(ck, cfgs[:1] if not ck.thorough() else cfgs, True,
                       range(32) if ck.thorough() else (0, 1, 8, 31))
    ck.task("canary", canary3, cfg=cfgs[0])
    ck.go()
    ck.validate()
    ck.confirm()
