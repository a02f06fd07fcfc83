"""A context is a plain value: position independence, isolation, full reset."""
from .streamval import *


def foreign(a):
    """an access outside what one call may touch"""
    return a.okind == "global" or (a.kind == "W" and a.okind not in ("alloca", "ctx", "extra"))


def two_ctx_lines(env, p, n, w, seeds=(21, 22)):
    """the same message alone, moved around half way, and interleaved with
    another stream"""
    e = env or eqv.Env()
    pend = bytes(e.byte("B", i) for i in range(p))
    ls = ["noref"] + ["ctx %d %d %d" % (i, (64, 0, 32, 96, 160)[i], i + 1) for i in range(5)]
    ls += ["buf 0 %d 3 1 1 5eed" % n, "buf 1 33 3 1 1 7", "buf 2 200 1 1 1 99", "buf 3 77 5 1 1 3"]
    if p:
        ls += ["set 1 0 " + pend.hex()]
    if n:
        ls += set_lines_(e, n, w)
    sx_, sy_ = e.syms.get("Sx", 21), e.syms.get("Sy", 22)
    A = lambda c: ["update %d 2 0 96 1" % c, "update %d 1 0 %d 1" % (c, p)]
    Z = lambda c: ["update %d 0 0 %d 1" % (c, n)]
    for fin in (0, 1):
        # alone
        ls += ["init 0 %x %x" % (sx_, sy_)] + A(0) + Z(0) + ["final 0 %d" % fin]
        # moved
        ls += ["init 1 %x %x" % (sx_, sy_)] + A(1) + ["copy 1 2", "scrub 1"] + Z(2) + \
            ["copy 2 0", "scrub 2", "final 0 %d" % fin, "same"]
        # another stream in between
        ls += ["init 3 %x %x" % (sx_, sy_), "init 4 5 6", "update 4 3 0 77 1"] + A(3) + \
            ["update 4 3 0 41 1"] + Z(3) + ["update 4 3 0 1 1", "final 3 %d" % fin, "same"]
        # the finalised and other contexts reused
        ls += ["init 4 %x %x" % (sx_, sy_)] + A(4) + Z(4) + ["final 4 %d" % fin, "same"]
        ls += ["init 3 %x %x" % (sx_, sy_)] + A(3) + Z(3) + ["final 3 %d" % fin, "same"]
        ls += ["scrub 3", "init 3 %x %x" % (sx_, sy_)] + A(3) + Z(3) + ["final 3 %d" % fin, "same"]
    return ls


def plain(out, cfg, u, p, n, vals):
    """obligations on one operation; vals: [(observable terms, state)]"""
    fn = u.fn
    # isolation: every access inside this context, the result word, the message or locals
    bad = [a for a in u.c.accesses if foreign(a)]
    ev = [e for e in u.c.events if e.kind.startswith(("oob-write", "write to", "oob-read ctx",
                                                      "wild-deref", "null-deref"))]
    hit = False
    for x, cond in [(a, bv.TRUE) for a in bad] + [(e, e.cond) for e in ev]:
        r, m = smt.check(u.c.assume + list(x.pc) + [cond, bv.eq(u.T, u.T)], 8000)
        if r == "unsat":
            continue
        if r == "sat":
            hit = True
            env = eqv.model_env(m, u.c.assume + list(x.pc) + [cond])
            out.add("cex")
            report(out, "touches other memory", cfg, fn, "%d pending bytes, piece %s, %s" % (
                p, n, getattr(x, "obj", None) or x.kind),
                [two_ctx_lines(env, p, n or 0, u.w)])
            break
        out.add("unknown")
        hit = True
    if not hit:
        out.add("proved")
    # position independence
    for vs, s in vals:
        ls = [x for x in bv.leaves(list(vs) + list(s.pc)) if x.op == "sym" and
              x.k.startswith("addr_")]
        if not ls:
            smt.check([bv.FALSE])
            out.add("proved")
            continue
        ren = {x: sym(x.k + "'", x.w) for x in ls}
        for vt, t in vals:
            v2 = bv.substitute(list(vt) + list(t.pc), ren)
            f = settle(out, list(zip(vs, v2[:len(vt)])), u.c.assume + list(s.pc) + v2[len(vt):])
            if f:
                report(out, "depends on where the context lies", cfg, fn,
                       "%d pending bytes, piece %s" % (p, n),
                       [two_ctx_lines(f[2], p, n or 0, u.w)])


def upd_plain(out, cfg, ps, ns):
    for p in ps:
        for n in ns:
            if core.timeleft() < 2:
                out.add("skipped")
                continue
            for u in upds(cfg, p, n):
                out.take(u.c, u.states)
                k = (p + n) % 32
                vals = []
                for s in u.states:
                    if s.status == "ret":
                        g = u.lay.get(u.c, s.mem[u.o.id])
                        vals.append((list(g["s"]) + [g["partial"], g["total"]] + g["buf"][:k], s))
                plain(out, cfg, u, p, n, vals)
        for wide in (False, True):
            f = Fin(cfg, p, wide)
            out.take(f.c, f.states)
            plain(out, cfg, f, p, None, [(f.values(s), s) for s in f.states if s.status == "ret"])
        if len(out.candidates) > 3:
            return


def reset_task(out, cfg):
    p = prog(cfg)
    lay = layout(cfg)

    def init(arr):
        c, o, st = fresh_ctx(p, lay.size, default=("array", arr))
        st = one(c.run(c.start("t1ha2_init", [o.base, sym("Sx", 64), sym("Sy", 64)], st)), "init")
        out.take(c, [st])
        g = lay.get(c, st.mem[o.id])
        return c, st, list(g["s"]) + [g["partial"], g["total"]]
    c, s, a = init("G")
    d, t, b = init("H")
    f = settle(out, list(zip(a, b)) + [(a[4], const(0, a[4].w))], list(s.pc) + list(t.pc))
    if f:
        e = f[2]
        fill = lambda arr: bytes(e.byte(arr, i) for i in range(lay.size)).hex()
        ls = ["noref", "ctx 0 0 1", "ctx 1 0 1", "ctx 2 0 2", "ctx 3 0 2", "buf 0 100 3 1 1 5",
              "fillctx 0 " + fill("G"), "fillctx 1 " + fill("H")]
        for i in (0, 1):
            ls += ["init %d %x %x" % (i, e.syms.get("Sx", 0), e.syms.get("Sy", 0)),
                   "update %d 0 0 100 1" % i, "copy %d %d" % (i, i + 2)]
        ls += ["final 0 0", "final 1 0", "same", "final 2 1", "final 3 1", "same"]
        report(out, "init leaves old content in effect", cfg, "t1ha2_init", "any seeds",
               [ls, two_ctx_lines(e, 3, 50, lay.w)])
    bad = [x for x in c.accesses if foreign(x)] + \
        [x for x in c.events if x.kind.startswith(("oob-", "write to"))]
    if bad:
        out.add("cex")
        report(out, "touches other memory", cfg, "t1ha2_init", "any seeds",
               [two_ctx_lines(None, 3, 50, lay.w)])
    else:
        smt.check([bv.FALSE])
        out.add("proved")


class Moved:
    """init and some pieces on one context, the rest on a byte copy of it"""

    def __init__(self, cfg, before, after, wide, move=True):
        p = prog(cfg)
        self.cfg, self.before, self.after, self.wide, self.w = cfg, before, after, wide, p.ptrw
        self.c, o, st = fresh_ctx(p, ctx_size(p))
        c = self.c
        self.k = 0
        sts = [one(c.run(c.start("t1ha2_init", [o.base, sym("Sx", 64), sym("Sy", 64)], st)),
                   "init")]
        for n in before:
            sts = self.feed(sts, o, n)
        self.n_acc = 0
        if move:
            # the original stays where it is, with other content
            self.old = o
            o2 = c.new_obj(None, "copy", "ctx", o.size, align=32, default=("uninit",))
            for s in sts:
                a = s.mem[o.id]
                b = o2.clone()
                for i, v in enumerate(c.load_bytes(a, 0, o.size)):
                    if not (v.op == "sym" and v.k.startswith("uninit_")):
                        c_put(c, b, i, v)
                s.mem[o2.id] = b
                a = s.wobj(o.id)
                for i in range(o.size):
                    c_put(c, a, i, bv.sel("OLD", const(i, self.w)))
            self.n_acc, o = len(c.accesses), o2
        for n in after:
            sts = self.feed(sts, o, n)
        e = const(0, self.w)
        self.extra = None
        if wide:
            self.extra = c.new_obj(None, "extra", "extra", 8, align=8, default=("array", "X"))
            e = self.extra.base
            for s in sts:
                s.mem[self.extra.id] = self.extra
        self.states = []
        for s in sts:
            s.status = "run"
            self.states += [x for x in c.run(c.start("t1ha2_final", [o.base, e], s))
                            if x.status == "ret"]
        self.stray = [a for a in c.accesses[self.n_acc:] if move and a.obj == self.old.name]

    def feed(self, sts, o, n):
        c = self.c
        arr = "M%d" % self.k
        lo = (3, 0, 5, 1, 7, 2, 6, 4)[self.k % 8]
        base = bv.concat(sym("Dh%d" % self.k, self.w - 6), const(0, 6))
        self.k += 1
        d = c.new_obj(None, "data", "data", None, default=("array", arr), base=base)
        c.assume += [ule(const(8192, self.w), base),
                     ule(base, const((1 << self.w) - 8192 - n - 64, self.w))]
        c.data_atom, c.data_len = base.args[0], n + 64
        r = []
        for s in sts:
            s.mem[d.id] = d
            s.status = "run"
            r += [x for x in c.run(c.start("t1ha2_update", [o.base, add(base, const(lo, self.w)),
                                                           const(n, self.w)], s))
                  if x.status == "ret"]
        return r

    values = Chain.values


def moved_task(out, cfg, ps, ns):
    """a context copied between two calls goes on like the original"""
    for p in ps:
        for n in ns:
            for wide in (False, True):
                if core.timeleft() < 2:
                    out.add("skipped")
                    continue
                m = Moved(cfg, (p,), (n,), wide)
                r = Moved(cfg, (p,), (n,), wide, move=False)
                out.take(m.c, m.states)
                bad = [a for a in m.stray if smt.feasible(m.c.assume + list(a.pc))]
                f = None
                for s in m.states:
                    for t in r.states:
                        pc = m.c.assume + r.c.assume + list(s.pc) + list(t.pc)
                        f = f or settle(out, list(zip(m.values(s), r.values(t))), pc)
                if bad and not f:
                    out.add("cex")
                if bad or f:
                    e = (f and f[2]) or eqv.Env(seed=5)
                    pend = {("B", i): e.byte("M0", 3 + i) for i in range(p)}
                    data = {("M", i): e.byte("M1", i) for i in range(n)}
                    e2 = eqv.Env(e.syms, {**pend, **data}, e.seed)
                    report(out, "a copy does not go on like the original", cfg,
                           "t1ha2_update/final", "copied with %d bytes pending, then a piece of %d"
                           % (p, n), [two_ctx_lines(e2, p, n, m.w)])
                    return


def canary17(out, cfg):
    """an address-dependent value must be refuted"""
    f = Fin(cfg, 5, False)
    s = f.states[0]
    v = bv.xor(f.values(s)[0], bv.zext(f.o.base, 64))
    o = core.Out()
    plain(o, cfg, f, 5, None, [([v], s)])
    out.add("canary refuted" if o.count.get("cex") else "canary NOT refuted")


def run(ck):
    cfgs = [C("x64"), C("m32"), C("x64", gcc=False)]
    ck.build(cfgs)
    preludes(ck, cfgs)
    ns = list(range(0, 70)) if not ck.thorough() else list(range(0, 200))
    for cfg in cfgs:
        ck.task("%s reset" % cfg.name, reset_task, cfg=cfg)
        for ps in chunks(range(32), 4):
            ck.task("%s plain %s" % (cfg.name, ps), upd_plain, cfg=cfg, ps=ps, ns=ns)
        mv = [0, 1, 8, 31, 32, 33, 70] if not ck.thorough() else list(range(0, 70))
        for ps in chunks(range(32), 4):
            ck.task("%s copied %s" % (cfg.name, ps), moved_task, cfg=cfg, ps=ps, ns=mv)
        ck.task("%s api" % cfg.name, api_traces, cfg=cfg)
        ck.bounds.append("%s: init, update (piece 0..%d) and final from any state with 0..31 "
                         "pending bytes: every access inside the context, the message, the result "
                         "word or locals; resulting state and values the same at every context "
                         "address; init from any content; whatever the context's representation: a fresh "
                         "stream of 0..31 bytes copied byte by byte elsewhere, then one more piece "
                         "(lengths %s) and final, against the same without the copy" %
                         (cfg.name, ns[-1], mv))
    ck.task("canary", canary17, cfg=cfgs[0])
    ck.go()
    ck.validate()
    ck.confirm()


def api_traces(out, cfg):
    for pieces in CHAINS[6:12]:
        ch = Chain(cfg, pieces, True, default=("array", "G"))
        out.take(ch.c, ch.states)
        for s in ch.states:
            chain_trace(out, cfg, ch, s)
