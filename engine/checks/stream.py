"""Symbolic streaming contexts and calls of init/update/final on them."""
from .. import bv, smt, sx, eqv, spec, core, replay
from ..bv import const, sym, ule, add
from .common import *

WORDS = ("Sa", "Sb", "Sc", "Sd")


def ctx_size(p):
    """sizeof(t1ha_context_t) in this program"""
    for m in p.modules:
        for n in m.types:
            if "t1ha_context" in n:
                return m.size(m.types[n])
    return 80


def one(states, what):
    rs = [s for s in states if s.status == "ret"]
    if len(rs) != 1 or len(rs) != len(states):
        raise sx.Unsupported("%s: %d end states" % (what, len(states)))
    return rs[0]


class Layout:
    """where the streaming state lives inside the context, found from what
    init and update do to it"""

    def __init__(self, cfg):
        p = prog(cfg)
        self.cfg, self.w, self.size = cfg, p.ptrw, ctx_size(p)
        c, o, st = fresh_ctx(p, self.size)
        st = one(c.run(c.start("t1ha2_init", [o.base, sym("Sx", 64), sym("Sy", 64)], st)), "init")
        ini = st.mem[o.id]
        d = c.new_obj(st, "data", "data", None, default=("array", "M"),
                      base=sym("D", self.w))
        c.assume = [ule(const(8192, self.w), d.base),
                    ule(d.base, const((1 << self.w) - 16384, self.w))]
        c.data_atom, c.data_len = d.base, 37
        try:
            st = one(c.run(c.start("t1ha2_update", [o.base, d.base, const(37, self.w)], st)),
                     "update")
        except sx.NeedSplit:
            c, o, st = fresh_ctx(p, self.size)
            st = one(c.run(c.start("t1ha2_init", [o.base, sym("Sx", 64), sym("Sy", 64)], st)),
                     "init")
            ini = st.mem[o.id]
            base = bv.concat(sym("Dh", self.w - 3), const(0, 3))
            d = c.new_obj(st, "data", "data", None, default=("array", "M"), base=base)
            c.assume = [ule(const(8192, self.w), base),
                        ule(base, const((1 << self.w) - 16384, self.w))]
            c.data_atom, c.data_len = sym("Dh", self.w - 3), 37
            st = one(c.run(c.start("t1ha2_update", [o.base, d.base, const(37, self.w)], st)),
                     "update")
        a = st.mem[o.id]
        bs = c.load_bytes(a, 0, self.size)
        m = [bv.sel("M", const(32 + i, self.w)) for i in range(5)]
        buf = [k for k in range(self.size - 31) if all(bs[k + i] is m[i] for i in range(5))]
        if len(buf) != 1:
            raise sx.Unsupported("context layout: buffer")
        self.buf = buf[0]
        used = set(range(self.buf, self.buf + 32))
        pw = self.w // 8
        word = lambda o_, k, n: c.join(c.load_bytes(o_, k, n))

        def holds(k, n, v):
            return 0 <= k <= self.size - n and not used & set(range(k, k + n)) and \
                word(a, k, n) is const(v, 8 * n)
        tot = [k for k in range(0, self.size, 4) if holds(k, 8, 37)]
        if len(tot) != 1:
            raise sx.Unsupported("context layout: total")
        self.total = tot[0]
        used |= set(range(self.total, self.total + 8))
        par = [(k, n) for n in (8, 4, 2, 1) if n <= pw for k in range(0, self.size, n)
               if holds(k, n, 5)]
        if not par:
            raise sx.Unsupported("context layout: partial")
        self.partial, self.psize = par[0]
        used |= set(range(self.partial, self.partial + self.psize))
        ws = [k for k in range(0, self.size - 7, 8) if not used & set(range(k, k + 8))
              and not all(_uninit(b) for b in c.load_bytes(ini, k, 8))]
        if len(ws) != 4:
            raise sx.Unsupported("context layout: state words")
        want = spec.Stream(sym("Sx", 64), sym("Sy", 64)).s
        order = []
        for v in want:
            hit = [k for k in ws if word(ini, k, 8) is v]
            if len(hit) == 1:
                order.append(hit[0])
        self.s = order if len(set(order)) == 4 else ws
        for k in self.s:
            used |= set(range(k, k + 8))
        for k in range(self.size):
            if k not in used and not _uninit(c.byte_at(a, k)):
                raise sx.Unsupported("context layout: unknown field at %d" % k)

    def put(self, c, o, s, pend, p, total):
        """fill context object o"""
        for k, v in zip(self.s, s):
            c_put(c, o, k, v)
        for i, b in enumerate(pend):
            c_put(c, o, self.buf + i, b)
        c_put(c, o, self.partial, const(p, 8 * self.psize))
        c_put(c, o, self.total, total)

    def get(self, c, o):
        w = lambda k, n: c.join(c.load_bytes(o, k, n))
        return {"s": [w(k, 8) for k in self.s], "partial": w(self.partial, self.psize),
                "total": w(self.total, 8), "buf": c.load_bytes(o, self.buf, 32)}


def _uninit(b):
    return b.op == "sym" and b.k.startswith("uninit_")


def c_put(c, o, k, v):
    n = v.w // 8
    c.punch(o, k, n)
    o.cells[k] = (n, v)


def fresh_ctx(p, size, name="ctx", default=("uninit",), hooks=None):
    c = sx.Ctx(p, hooks=hooks)
    st = sx.State()
    o = c.new_obj(st, name, "ctx", size, align=32, default=default)
    return c, o, st


_lay = {}


def layout(cfg):
    r = _lay.get(cfg.name)
    if r is None:
        try:
            r = Layout(cfg)
        except (sx.Unsupported, sx.Limit, sx.NeedSplit) as e:
            r = e
        _lay[cfg.name] = r
    if isinstance(r, Exception):
        raise sx.Unsupported(str(r))
    return r


def no_layout_cache():
    _lay.clear()


class Rep:
    """an arbitrary streaming state with p pending bytes: any state words, any
    pending bytes, any total, anything in the unused part of the buffer"""

    def __init__(self, cfg, p, hooks=None, arr="B", total=None, name="ctx"):
        _lay.clear() if False else None
        self.cfg, self.p = cfg, p
        self.lay = layout(cfg)
        self.w = self.lay.w
        self.c, self.o, self.st = fresh_ctx(prog(cfg), self.lay.size, name=name, hooks=hooks)
        self.S = [sym(x, 64) for x in WORDS]
        self.B = [bv.sel(arr, const(i, self.w)) for i in range(p)]
        self.T = sym("T", 64) if total is None else total
        self.lay.put(self.c, self.o, self.S, self.B, p, self.T)


class Upd(Rep):
    """t1ha2_update(ctx, D, n) on an arbitrary state with p pending bytes"""

    def __init__(self, cfg, p, n, low=None, null=False, lenn=None, hooks=None):
        Rep.__init__(self, cfg, p, hooks)
        self.fn, self.n, self.low = "t1ha2_update", n, low
        c, w = self.c, self.w
        self.null = null
        self.mem = spec.Mem(w, "M")
        if null:
            self.D = const(0, w)
            c.data_len = 0
        elif low is None:
            self.D = D = sym("D", w)
            c.new_obj(self.st, "data", "data", None, default=("array", "M"), base=D)
            c.data_atom, c.data_len = D, n
        else:
            k, v = low
            A = bv.concat(sym("Dh", w - k), const(0, k))
            c.new_obj(self.st, "data", "data", None, default=("array", "M"), base=A)
            self.D = add(A, const(v, w))
            self.mem = spec._Shift(self.mem, v)
            c.data_atom, c.data_len = sym("Dh", w - k), n
        if not null:
            c.assume = [ule(const(8192, w), self.D),
                        ule(self.D, const((1 << w) - 8192 - n, w))]
        self.states = c.run(c.start(self.fn, [self.o.base, self.D, const(n, w)], self.st))

    def spec(self):
        a = spec.Stream.at(self.S, self.B, self.T)
        return a.absorb([self.mem.byte(const(i, self.w)) for i in range(self.n)],
                        const(self.n, self.w))


class Fin(Rep):
    """t1ha2_final on an arbitrary state"""

    def __init__(self, cfg, p, wide, hooks=None, total=None):
        Rep.__init__(self, cfg, p, hooks, total=total)
        self.fn, self.n, self.wide, self.low = "t1ha2_final", 0, wide, None
        c = self.c
        self.D = None
        self.extra = None
        e = const(0, self.w)
        if wide:
            self.extra = c.new_obj(self.st, "extra", "extra", 8, align=8, default=("array", "X"))
            e = self.extra.base
        self.states = c.run(c.start(self.fn, [self.o.base, e], self.st))

    def values(self, s):
        v = [s.value]
        if self.extra is not None:
            v.append(self.c.join(self.c.load_bytes(s.mem[self.extra.id], 0, 8)))
        return v

    def spec(self):
        return list(spec.Stream.at(self.S, self.B, self.T).final(self.wide))


def upds(cfg, p, n, **kw):
    try:
        return [Upd(cfg, p, n, **kw)]
    except sx.NeedSplit:
        return [Upd(cfg, p, n, low=(3, v), **kw) for v in range(8)]


def addr_of(u, env):
    v, = bv.evaluate([u.D], env)
    return v
