"""Symbolic executor for LLVM IR over bv terms."""
import itertools
from . import bv, smt, ir
from .bv import Node, const, mask, TRUE, FALSE


class Unsupported(Exception):
    pass


class NeedSplit(Exception):
    """a pointer computation lost the base: re-run with the base's low bits fixed"""


class Limit(Exception):
    pass


class Obj:
    """memory object; cells: off -> (size, node); bytes not in cells come from
    `default`: ('uninit',) | ('zero',) | ('array', name) | ('bytes', b)"""
    __slots__ = ("id", "name", "kind", "size", "base", "cells", "default", "writable")

    def __init__(self, id, name, kind, size, base, default, writable=True):
        self.id = id
        self.name = name
        self.kind = kind
        self.size = size
        self.base = base
        self.cells = {}
        self.default = default
        self.writable = writable

    def clone(self):
        o = Obj.__new__(Obj)
        o.id = self.id
        o.name = self.name
        o.kind = self.kind
        o.size = self.size
        o.base = self.base
        o.cells = dict(self.cells)
        o.default = self.default
        o.writable = self.writable
        return o


MAXC = 64


class Frame:
    __slots__ = ("fn", "block", "idx", "prev", "regs", "ret_reg", "uid")

    def __init__(self, fn, block, regs, ret_reg, uid):
        self.fn = fn
        self.block = block
        self.idx = 0
        self.prev = None
        self.regs = regs
        self.ret_reg = ret_reg
        self.uid = uid

    def clone(self):
        f = Frame(self.fn, self.block, dict(self.regs), self.ret_reg, self.uid)
        f.idx = self.idx
        f.prev = self.prev
        return f


class State:
    __slots__ = ("frames", "mem", "pc", "owned", "status", "value", "info", "steps", "visits")

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = ()
        self.owned = set()
        self.status = "run"
        self.value = None
        self.info = None
        self.steps = 0
        self.visits = None

    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.owned = set()
        self.owned = set()
        s.status = self.status
        s.value = self.value
        s.info = self.info
        s.steps = self.steps
        return s

    def wobj(self, oid):
        if oid not in self.owned:
            self.mem[oid] = self.mem[oid].clone()
            self.owned.add(oid)
        return self.mem[oid]


class Access:
    __slots__ = ("kind", "obj", "okind", "off", "size", "pc", "fn", "line", "align", "bytewise")

    def __init__(self, kind, obj, okind, off, size, pc, fn, line, align, bytewise):
        self.kind, self.obj, self.okind, self.off, self.size = kind, obj, okind, off, size
        self.pc, self.fn, self.line, self.align, self.bytewise = pc, fn, line, align, bytewise


class Event:
    """something that must not be reachable: pc /\\ cond"""
    __slots__ = ("kind", "pc", "cond", "fn", "line")

    def __init__(self, kind, pc, cond, fn, line):
        self.kind, self.pc, self.cond, self.fn, self.line = kind, pc, cond, fn, line


class Program:
    def __init__(self, modules):
        self.modules = modules
        self.layout = modules[0].layout
        self.ptrw = self.layout.ptr
        self.big = self.layout.big
        self.funcs = {}
        self.ifuncs = {}
        self.gdefs = {}
        for m in modules:
            for n, f in m.funcs.items():
                if not f.internal:
                    self.funcs[n] = f
            for n, r in m.ifuncs.items():
                self.ifuncs[n] = (m, r)
            for n, g in m.globals.items():
                if g[1] is not None and not g[3]:
                    self.gdefs[n] = (m, g)

    def lookup_fn(self, mod, name):
        f = mod.funcs.get(name)
        if f is not None:
            return f
        f = self.funcs.get(name)
        if f is not None:
            return f
        a = mod.aliases.get(name)
        if a:
            return self.lookup_fn(mod, a)
        return None

    def lookup_global(self, mod, name):
        g = mod.globals.get(name)
        if g is not None and g[1] is not None:
            return mod, name, g, bool(g[3])
        if name in self.gdefs:
            m, g = self.gdefs[name]
            return m, name, g, False
        return None


class Ctx:
    dflt = True
    """one symbolic run: program + environment + logs"""

    def __init__(self, prog, hooks=None, assume=(), merge=True, max_steps=400000):
        self.prog = prog
        self.w = prog.ptrw
        self.big = prog.big
        self.hooks = hooks or {}
        self.assume = list(assume)
        self.merge = merge
        self.max_steps = max_steps
        self.total_steps = 0
        self.accesses = []
        self.events = []
        self.fnaddr = {}           # node.id -> (mod, name)
        self.fnnodes = {}
        self.bases = {}            # atom id -> (oid, coeff)
        self.decode_cache = {}
        self.ite_cache = {}
        self.asked = 0           # conditions that were not constant
        self.enum_cache = {}
        self.ocount = itertools.count(1)
        self.globals = {}
        self.gobjs = {}            # oid -> pristine Obj for globals
        self.uid = itertools.count(1)
        self.uninit = itertools.count(1)
        self.feas_cache = {}
        self.data_len = None       # concrete length of the data object, for fast compare
        self.data_big = None       # its symbolic length instead
        self.data_atom = None
        self.functions = set()
        self.forks = 0
        self.merges = 0
        self.loop_hook = None
        self.fork_policy = None
        self.log = True
        self.kcache = {}
        self.cmp_lemma_used = False
        self.okinds = {}
        self.osizes = {}
        self.summaries = Ctx.dflt

    # ------------------------------------------------------------ objects
    def new_base(self, name, align):
        b = align.bit_length() - 1
        s = bv.sym("addr_" + name, self.w - b)
        return bv.concat(s, const(0, b)) if b else s

    def new_obj(self, st, name, kind, size, align=16, default=("uninit",), writable=True,
                base=None):
        oid = next(self.ocount)
        if base is None:
            base = self.new_base("%s_%d" % (name, oid), align)
        o = Obj(oid, name, kind, size, base, default, writable)
        self.okinds[oid] = kind
        if kind != "data":
            self.osizes[oid] = size
        self.register_base(oid, base)
        if st is not None:
            st.mem[oid] = o
            st.owned.add(oid)
        return o

    def register_base(self, oid, base):
        d, c = bv.linear(base)
        assert len(d) == 1 and c == 0
        (a, k), = d.items()
        self.bases[a.id] = (oid, k)

    def decode(self, p):
        """pointer node -> (oid, offset node)"""
        r = self.decode_cache.get(p.id)
        if r is not None:
            return r
        d, c = bv.linear(p)
        hit = None
        for a, k in d.items():
            b = self.bases.get(a.id)
            if b is not None and b[1] == k:
                if hit is not None:
                    raise Unsupported("pointer with two bases")
                hit = (b[0], a)
        if hit is None:
            # base and offset side by side
            if p.op == "concat" and p.args[0].op == "sym":
                top = p.args[0]
                b = self.bases.get(bv.concat(const(0, self.w - top.w), top).id)
                if b is not None and b[1] == 1 << (self.w - top.w):
                    r = (b[0], bv.zext(bv.concat(*p.args[1:]), self.w))
                    self.decode_cache[p.id] = r
                    return r
            return None
        rest = {x: k for x, k in d.items() if x is not hit[1]}
        r = (hit[0], bv.lin_from(rest, c, self.w))
        self.decode_cache[p.id] = r
        return r

    def fn_node(self, mod, name):
        f = self.prog.lookup_fn(mod, name)
        key = (f.mod if f is not None and f.internal else None, name)
        n = self.fnnodes.get(key)
        if n is None:
            n = bv.concat(bv.sym("fn_" + name + ("" if key[0] is None else "@" + key[0].name),
                                 self.w - 4), const(0, 4))
            self.fnnodes[key] = n
            self.fnaddr[n.id] = (mod, name)
        return n

    def global_obj(self, mod, name):
        r = self.prog.lookup_global(mod, name)
        if r is None:
            raise Unsupported("external global " + name)
        m, n, g, internal = r
        key = (id(m) if internal else 0, n)
        o = self.globals.get(key)
        if o is None:
            ty, init, isconst, _ = g
            o = self.new_obj(None, n, "const" if isconst else "global", m.size(ty),
                             max(16, m.align(ty)), ("zero",), not isconst)
            self.globals[key] = o
            self.gobjs[o.id] = o
            self.fill(o, 0, m, ty, init)
        return o

    def fill(self, o, off, m, ty, c):
        ty = m.resolve(ty)
        k = c[0]
        if k in ("zero", "undef", "poison"):
            return
        if k == "str":
            o.default = ("bytes", c[1]) if off == 0 and len(c[1]) == o.size else o.default
            if o.default[0] != "bytes":
                for i, b in enumerate(c[1]):
                    o.cells[off + i] = (1, const(b, 8))
            return
        if k == "agg":
            if ty[0] == "st":
                offs, _ = m.fields(ty)
                for (et, ec), fo in zip(c[2], offs):
                    self.fill(o, off + fo, m, et, ec)
            else:
                es = m.size(ty[2])
                for i, (et, ec) in enumerate(c[2]):
                    self.fill(o, off + i * es, m, et, ec)
            return
        v = self.kval(m, ty, c)
        if v.w % 8:
            v = bv.zext(v, (v.w + 7) // 8 * 8)
        o.cells[off] = (v.w // 8, v)

    # ------------------------------------------------------------ constants
    def kval(self, m, ty, c):
        k = c[0]
        if k == "int":
            return const(c[2], m.bits(ty))
        if k == "null":
            return const(0, self.w)
        if k == "zero":
            t = m.resolve(ty)
            if t[0] in ("st", "arr"):
                n = t[1] if t[0] == "arr" else None
                ts = [t[2]] * n if n is not None else t[1]
                return tuple(self.kval(m, x, ("zero", x)) for x in ts)
            return const(0, m.bits(ty))
        if k in ("undef", "poison"):
            t = m.resolve(ty)
            if t[0] in ("st", "arr"):
                ts = [t[2]] * t[1] if t[0] == "arr" else t[1]
                return tuple(self.kval(m, x, (k, x)) for x in ts)
            return bv.sym("uninit_undef%d" % next(self.uninit), m.bits(ty))
        if k == "g":
            if c[1] in m.ifuncs or c[1] in self.prog.ifuncs:
                return self.fn_node(m, c[1])
            if self.prog.lookup_fn(m, c[1]) is not None or c[1] in m.decls:
                return self.fn_node(m, c[1])
            return self.global_obj(m, c[1]).base
        if k == "gep":
            base = self.kval(m, ir.PTR, c[2][0][1])
            idx = [(t, self.kval(m, t, x)) for t, x in c[2][1:]]
            return self.gep(m, c[1], base, idx)
        if k == "cast":
            v = self.kval(m, c[3], c[2])
            return self.cast(c[1], v, m.bits(c[4]))
        if k == "bin":
            a = self.kval(m, c[4], c[2])
            b = self.kval(m, c[4], c[3])
            return {"add": bv.add, "sub": bv.sub, "xor": bv.xor, "and": bv.and_, "or": bv.or_,
                    "shl": bv.shl, "lshr": bv.lshr, "mul": bv.mul}[c[1]](a, b)
        if k == "icmp":
            return self.icmp(None, c[1], self.kval(m, c[4], c[2]), self.kval(m, c[4], c[3]))
        if k == "select":
            return bv.ite(self.kval(m, ("i", 1), c[1]), self.kval(m, c[4], c[2]),
                          self.kval(m, c[4], c[3]))
        if k == "agg":
            t = m.resolve(ty)
            if t[0] == "vec":
                xs = [self.kval(m, et, ec) for et, ec in c[2]]
                return self.vec(xs)
            return tuple(self.kval(m, et, ec) for et, ec in c[2])
        if k == "str":
            return tuple(const(b, 8) for b in c[1])
        raise Unsupported("const " + k)

    # vectors: lane 0 is the lowest bits on LE (in registers we always use that order)
    def vec(self, xs):
        return bv.concat(*reversed(xs))

    def lanes(self, v, n):
        w = v.w // n
        return [bv.ext(v, (i + 1) * w - 1, i * w) for i in range(n)]

    def cast(self, op, v, w):
        if op in ("zext", "ptrtoint", "inttoptr", "addrspacecast", "bitcast"):
            if w >= v.w:
                return bv.zext(v, w)
            return bv.ext(v, w - 1, 0)
        if op == "sext":
            return bv.sext(v, w)
        if op == "trunc":
            return bv.ext(v, w - 1, 0)
        raise Unsupported(op)

    def gep(self, m, bt, base, idx):
        w = self.w
        p = base
        t = bt
        for i, (it, v) in enumerate(idx):
            if i == 0:
                p = self._gadd(p, v, m.size(t))
                continue
            t = m.resolve(t)
            if t[0] == "st":
                f = v.k
                p = bv.add(p, const(m.fields(t)[0][f], w))
                t = t[1][f]
            elif t[0] in ("arr", "vec"):
                t = t[2]
                p = self._gadd(p, v, m.size(t))
            else:
                raise Unsupported("gep into %r" % (t,))
        return p

    def _gadd(self, p, v, sz):
        w = self.w
        if v.w < w:
            v = bv.sext(v, w)
        elif v.w > w:
            v = bv.ext(v, w - 1, 0)
        if v.op == "const":
            return bv.add(p, const(v.k * sz, w)) if v.k else p
        return bv.add(p, bv.mulc(v, sz))

    def icmp(self, st, pred, a, b):
        if pred == "eq":
            return self.ptr_eq(a, b)
        if pred == "ne":
            return bv.not_(self.ptr_eq(a, b))
        if pred[0] == "u" and a.w == self.w and a.op != "const" and b.op != "const":
            a, b = self.inside(a, b)
        if pred == "ult":
            return bv.ult(a, b)
        if pred == "ugt":
            return bv.ult(b, a)
        if pred == "ule":
            return bv.not_(bv.ult(b, a))
        if pred == "uge":
            return bv.not_(bv.ult(a, b))
        if pred == "slt":
            return bv.slt(a, b)
        if pred == "sgt":
            return bv.slt(b, a)
        if pred == "sle":
            return bv.not_(bv.slt(b, a))
        if pred == "sge":
            return bv.not_(bv.slt(a, b))
        raise Unsupported(pred)

    def inside(self, a, b):
        """two addresses in (or just past) one object -> their offsets: objects
        do not wrap around"""
        da, db = self.decode(a), self.decode(b)
        if da is None or db is None or da[0] != db[0]:
            return a, b
        n = self.osizes.get(da[0])
        if n is None:
            return a, b
        for _, o in (da, db):
            if o.op == "const":
                if o.k > n:
                    return a, b
            elif bv.top_zeros(o) < o.w - (n + 1).bit_length() + 1:
                return a, b
        return da[1], db[1]

    def ptr_eq(self, a, b, depth=6):
        if a.w == self.w and depth:
            for x, y in ((a, b), (b, a)):
                if x.op == "ite" and y.op != "ite":
                    return bv.ite(x.args[0], self.ptr_eq(x.args[1], y, depth - 1),
                                  self.ptr_eq(x.args[2], y, depth - 1))
        r = bv.eq(a, b)
        if r.op == "eq" and a.w == self.w:
            da, db = self.decode(a), self.decode(b)
            if da is not None and db is not None and da[0] != db[0]:
                ok = 0
                for oid, o in (da, db):
                    n = self.osizes.get(oid)
                    ok += o.op == "const" and n is not None and o.k < n
                if ok == 2:
                    return FALSE
            # an object's address is never null; distinct functions differ
            for x, y in ((a, b), (b, a)):
                if y.op == "const" and y.k == 0:
                    if x.id in self.fnaddr:
                        return FALSE
                    d = self.decode(x)
                    if d is not None and d[1].op == "const" and x.op in ("concat", "sum"):
                        o = self.bases_kind(d[0])
                        if o in ("alloca", "global", "const", "ctx", "extra"):
                            return FALSE
            if a.id in self.fnaddr and b.id in self.fnaddr:
                return FALSE
        return r

    def bases_kind(self, oid):
        return self.okinds.get(oid)

    # ------------------------------------------------------------ memory
    def getobj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            o = self.gobjs[oid]
            st.mem[oid] = o
        return o

    def acc(self, st, kind, o, off, size, align, bytewise, ins):
        if not self.log:
            return
        fr = st.frames[-1] if st.frames else None
        self.accesses.append(Access(kind, o.name, o.kind, off, size, st.pc,
                                    fr.fn.name if fr else "?", ins.line if ins is not None else "",
                                    align, bytewise))

    def event(self, st, kind, cond, ins):
        fr = st.frames[-1] if st.frames else None
        self.events.append(Event(kind, st.pc, cond, fr.fn.name if fr else "?",
                                 ins.line if ins is not None else ""))

    def addr(self, st, p, ins):
        d = self.decode(p)
        if d is None:
            if p.op == "const":
                self.event(st, "null-deref" if p.k < 4096 else "wild-deref", TRUE, ins)
                return None
            # does it mention a known base at all?
            if self.data_atom is not None and any(n is self.data_atom for n in bv.leaves([p])):
                raise NeedSplit()
            raise Unsupported("wild pointer %s" % bv.pretty(p, 4))
        return d

    def alts(self, st, p):
        """a pointer that is one of two -> (condition, one, other)"""
        if p.op in ("const", "sym") or not self.has_ite(p):
            return None
        d = self.decode(p)
        if d is not None:
            if d[1].op == "const" or self.okinds.get(d[0]) != "data":
                return None
            top = [a for a in bv.linear(d[1])[0] if a.op == "ite"]
            if not top:
                return None
            t = top[0]
        else:
            t = self.has_ite(p)
        c = t.args[0]
        x, y = (bv.substitute([p], {t: t.args[i]})[0] for i in (1, 2))
        r = self.decide(st, c)
        if r is not None:
            c = TRUE if r else FALSE
        return c, x, y

    def has_ite(self, p):
        """the topmost choice in an address"""
        r = self.ite_cache.get(p.id, 0)
        if r == 0:
            r = None
            work = [p]
            seen = set()
            while work and len(seen) < 400:
                n = work.pop(0)
                if n.id in seen:
                    continue
                seen.add(n.id)
                if n.op == "ite":
                    r = n
                    break
                if n.op in ("sum", "concat", "ext", "xor", "and", "or", "mul", "shl", "lshr"):
                    work += n.args
            self.ite_cache[p.id] = r
        return r

    def both(self, st, a, f):
        """f under either choice; -> the chosen value"""
        c, x, y = a
        if c.op == "const":
            return f(x if c.k else y)
        pc = st.pc
        st.pc = pc + (c,)
        u = f(x)
        st.pc = pc + (bv.not_(c),)
        v = f(y)
        st.pc = pc
        return None if u is None else bv.ite(c, u, v)

    def raw_byte(self, o, off):
        k = o.default[0]
        if k == "uninit":
            n = bv.sym("uninit_%s_%d_%d" % (o.name, o.id, off), 8)
            return n
        if k == "zero":
            return const(0, 8)
        if k == "array":
            return bv.sel(o.default[1], const(off, self.w))
        if k == "bytes":
            b = o.default[1]
            return const(b[off], 8) if 0 <= off < len(b) else const(0, 8)
        raise Unsupported(k)

    def byte_at(self, o, off):
        c = o.cells.get(off)
        if c is not None:
            sz, n = c
            if sz == 1:
                return n
            return self._cell_byte(n, sz, 0)
        for d in range(1, MAXC):
            c = o.cells.get(off - d)
            if c is not None:
                if c[0] > d:
                    return self._cell_byte(c[1], c[0], d)
                # a nearer smaller cell does not exclude a farther larger one, but
                # cells never overlap, so the nearest decides
                break
        return self.raw_byte(o, off)

    def _cell_byte(self, n, sz, i):
        if self.big:
            return bv.ext(n, 8 * (sz - i) - 1, 8 * (sz - i - 1))
        return bv.ext(n, 8 * i + 7, 8 * i)

    def join(self, bs):
        if self.big:
            return bv.concat(*bs)
        return bv.concat(*reversed(bs))

    def load_bytes(self, o, off, n):
        return [self.byte_at(o, off + i) for i in range(n)]

    def read(self, st, p, size, ins, align=1, bytewise=False):
        a = self.alts(st, p)
        if a is not None:
            return self.both(st, a, lambda q: self.read(st, q, size, ins, align, bytewise))
        d = self.addr(st, p, ins)
        if d is None:
            return bv.fresh("bad", size * 8)
        oid, off = d
        o = self.getobj(st, oid)
        self.acc(st, "R", o, off, size, align, bytewise, ins)
        if o.kind == "data":
            arr = o.default[1]
            if not o.cells:
                if off.op == "const":
                    m = mask(self.w)
                    bs = [bv.sel(arr, const(off.k + i, self.w)) for i in range(size)]
                else:
                    bs = [bv.sel(arr, bv.add(off, const(i, self.w))) for i in range(size)]
                return self.join(bs)
            raise Unsupported("data was written")
        if off.op != "const":
            return self.read_symbolic(st, o, off, size, ins)
        k = off.k
        if k >> (self.w - 1):
            k -= 1 << self.w
        if o.size is not None and not (0 <= k and k + size <= o.size):
            self.event(st, "oob-read %s" % o.name, TRUE, ins)
            return bv.fresh("oob", size * 8)
        c = o.cells.get(k)
        if c is not None and c[0] == size:
            return c[1]
        return self.join(self.load_bytes(o, k, size))

    def read_symbolic(self, st, o, off, size, ins):
        offs = self.enum_values(st, off, 128)
        r = None
        for v in offs:
            k = v - (1 << self.w) if v >> (self.w - 1) else v
            cond = bv.eq(off, const(v, self.w))
            if o.size is not None and not (0 <= k and k + size <= o.size):
                self.event(st, "oob-read %s" % o.name, cond, ins)
                continue
            x = self.join(self.load_bytes(o, k, size))
            r = x if r is None else bv.ite(cond, x, r)
        return r if r is not None else bv.fresh("oob", size * 8)

    def enum_values(self, st, node, limit):
        """all feasible values of a node under the path condition"""
        if node.op == "sum" and node.k[1]:
            # the constant apart
            c = node.k[1]
            rest = bv.sub(node, const(c, node.w))
            return [(v + c) & mask(node.w) for v in self.enum_values(st, rest, limit)]
        if node.op == "const":
            return [node.k]
        key = (node.id, tuple(x.id for x in st.pc), tuple(x.id for x in self.assume), limit)
        hit = self.enum_cache.get(key)
        if hit is not None:
            return list(hit)
        vals = self.enum_cache[key] = self.enum_new(st, node, limit)
        return list(vals)

    def enum_new(self, st, node, limit):
        vals = []
        extra = []
        while True:
            r, m = smt.check(list(self.assume) + list(st.pc) + extra +
                             [bv.eq(node, node)], 5000, kind="feasibility")
            if r == "unsat":
                return vals
            if r != "sat":
                raise Unsupported("cannot enumerate")
            v = m.val(node)
            vals.append(v)
            if len(vals) > limit:
                raise Unsupported("too many values for %s" % bv.pretty(node, 3))
            extra.append(bv.not_(bv.eq(node, const(v, node.w))))

    def concretise(self, st, node):
        """the single feasible value, or Unsupported (None when several)"""
        if node.op == "const":
            return node.k
        vs = self.enum_values(st, node, 2)
        if len(vs) == 1:
            return vs[0]
        return None

    def punch(self, o, off, size):
        """make room for a cell at [off, off+size)"""
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == size:
            return
        for k in range(off - MAXC + 1, off + size):
            c = cells.get(k)
            if c is not None and k + c[0] > off:
                del cells[k]
                if c[0] > 1:
                    for i in range(c[0]):
                        if not (off <= k + i < off + size):
                            cells[k + i] = (1, self._cell_byte(c[1], c[0], i))

    def write(self, st, p, v, ins, align=1, bytewise=False):
        size = v.w // 8
        a = self.alts(st, p)
        if a is not None:
            c = a[0]

            def put(q):
                w = v
                if c.op != "const":
                    log, ev = self.log, list(self.events)
                    self.log = False
                    old = self.read(st, q, size, ins, align, bytewise)
                    self.log = log
                    self.events[:] = ev
                    w = bv.ite(st.pc[-1], v, old)
                self.write(st, q, w, ins, align, bytewise)
            self.both(st, a, put)
            return
        d = self.addr(st, p, ins)
        if d is None:
            return
        oid, off = d
        o = self.getobj(st, oid)
        self.acc(st, "W", o, off, size, align, bytewise, ins)
        if o.kind in ("data", "const") or not o.writable:
            self.event(st, "write to %s %s" % (o.kind, o.name), TRUE, ins)
            return
        if off.op != "const":
            offs = self.enum_values(st, off, 128)
            o = st.wobj(oid)
            for x in offs:
                k = x - (1 << self.w) if x >> (self.w - 1) else x
                cond = bv.eq(off, const(x, self.w))
                if o.size is not None and not (0 <= k and k + size <= o.size):
                    self.event(st, "oob-write %s" % o.name, cond, ins)
                    continue
                old = self.join(self.load_bytes(o, k, size))
                self.punch(o, k, size)
                o.cells[k] = (size, bv.ite(cond, v, old))
            return
        k = off.k
        if k >> (self.w - 1):
            k -= 1 << self.w
        if o.size is not None and not (0 <= k and k + size <= o.size):
            self.event(st, "oob-write %s" % o.name, TRUE, ins)
            return
        o = st.wobj(oid)
        self.punch(o, k, size)
        o.cells[k] = (size, v)

    def memcpy(self, st, dst, src, n, ins):
        # read everything first
        if n == 0:
            return
        if n <= 256 and (self.alts(st, src) is not None or self.alts(st, dst) is not None):
            one = [self.read(st, bv.add(src, const(i, self.w)), 1, ins, 1, True)
                   for i in range(n)]
            for i, v in enumerate(one):
                self.write(st, bv.add(dst, const(i, self.w)), v, ins, 1, True)
            return
        ds = self.addr(st, src, ins)
        dd = self.addr(st, dst, ins)
        if ds is None or dd is None:
            return
        so = self.getobj(st, ds[0])
        self.acc(st, "R", so, ds[1], n, 1, True, ins)
        log = self.log
        bs = []
        if so.kind == "data":
            for i in range(n):
                bs.append((1, bv.sel(so.default[1], bv.add(ds[1], const(i, self.w)))))
        else:
            if ds[1].op != "const":
                raise Unsupported("memcpy from symbolic offset")
            k = ds[1].k
            if so.size is not None and not 0 <= k <= so.size - n:
                self.event(st, "oob-read %s" % so.name, TRUE, ins)
                return
            i = 0
            while i < n:
                c = so.cells.get(k + i)
                if c is not None and c[0] <= n - i:
                    bs.append(c)
                    i += c[0]
                else:
                    bs.append((1, self.byte_at(so, k + i)))
                    i += 1
        do = self.getobj(st, dd[0])
        self.acc(st, "W", do, dd[1], n, 1, True, ins)
        if do.kind in ("data", "const") or not do.writable:
            self.event(st, "write to %s %s" % (do.kind, do.name), TRUE, ins)
            return
        offs = [(dd[1].k, None)] if dd[1].op == "const" else \
            [(v, bv.eq(dd[1], const(v, self.w))) for v in self.enum_values(st, dd[1], 64)]
        do = st.wobj(dd[0])
        for k, cond in offs:
            if do.size is not None and not 0 <= k <= do.size - n:
                self.event(st, "oob-write %s" % do.name, cond or TRUE, ins)
                continue
            i = 0
            for sz, v in bs:
                if cond is not None:
                    v = bv.ite(cond, v, self.join(self.load_bytes(do, k + i, sz)))
                self.punch(do, k + i, sz)
                do.cells[k + i] = (sz, v)
                i += sz

    def memset(self, st, dst, val, n, ins):
        if n == 0:
            return
        dd = self.addr(st, dst, ins)
        if dd is None:
            return
        do = self.getobj(st, dd[0])
        self.acc(st, "W", do, dd[1], n, 1, True, ins)
        if do.kind in ("data", "const") or not do.writable:
            self.event(st, "write to %s %s" % (do.kind, do.name), TRUE, ins)
            return
        if dd[1].op != "const":
            raise Unsupported("memset symbolic")
        k = dd[1].k
        if do.size is not None and not 0 <= k <= do.size - n:
            self.event(st, "oob-write %s" % do.name, TRUE, ins)
            return
        do = st.wobj(dd[0])
        for i in range(n):
            self.punch(do, k + i, 1)
            do.cells[k + i] = (1, val)

    # ------------------------------------------------------------ decisions
    def fast_cmp(self, c):
        """ult over two addresses inside (or near) the data object"""
        neg = False
        n = c
        if n.op == "xor" and n.k == 1 and len(n.args) == 1:
            n = n.args[0]
            neg = True
        if n.op != "ult" or self.data_len is None:
            return None
        a, b = n.args
        if a.w != self.w:
            return None
        da, ca = bv.linear(a)
        db, cb = bv.linear(b)
        if len(da) != 1 or len(db) != 1:
            return None
        if da.get(self.data_atom) != 1 or db.get(self.data_atom) != 1:
            return None
        s = lambda v: v - (1 << self.w) if v >> (self.w - 1) else v
        ca, cb = s(ca), s(cb)
        lo, hi = -4095, self.data_len + 4095
        if lo <= ca <= hi and lo <= cb <= hi:
            self.cmp_lemma_used = True
            return (ca < cb) != neg
        return None

    def decide(self, st, c):
        """-> True / False / None (both feasible)"""
        if c.op == "const":
            return bool(c.k)
        self.asked += 1
        r = self.fast_cmp(c)
        if r is not None:
            return r
        if self.data_big is not None:
            c = self.big_cmp(st, c)
            if c.op == "const":
                return bool(c.k)
        key = (c.id, tuple(x.id for x in st.pc), tuple(x.id for x in self.assume))
        r = self.feas_cache.get(key, 0)
        if r != 0:
            return r
        base = self.relevant(list(self.assume) + list(st.pc), c)
        t = smt.feasible(base, c)
        f = smt.feasible(base, bv.not_(c)) if t else True
        r = None if (t and f) else t
        self.feas_cache[key] = r
        return r

    def relevant(self, xs, c):
        if self.data_big is None or self.data_atom in bv.leaves([c]):
            return xs
        # the address is unconstrained but for the bounds that keep the key
        # from wrapping, so conditions without it are decided without it
        return [x for x in xs if self.data_atom not in bv.leaves([x])]

    def big_cmp(self, st, c):
        """order of two addresses near the key -> order of their offsets"""
        n, neg = c, False
        if n.op == "xor" and n.k == 1 and len(n.args) == 1:
            n, neg = n.args[0], True
        if n.op != "ult" or n.args[0].w != self.w:
            return c
        offs = []
        for x in n.args:
            d, k = bv.linear(x)
            if d.get(self.data_atom) != 1 and not (
                    self.data_atom.w < self.w and any(
                        self.bases.get(a.id, (None, 0))[1] == m for a, m in d.items())):
                return c
            r = self.decode(x)
            if r is None:
                return c
            offs.append(bv.add(r[1], const(8192 - 4096, self.w)))
        lim = bv.add(self.data_big, const(8191, self.w))
        key = ("near", offs[0].id, offs[1].id, tuple(x.id for x in st.pc),
               tuple(x.id for x in self.assume))
        ok = self.feas_cache.get(key)
        if ok is None:
            bad = bv.or_(bv.ult(lim, offs[0]), bv.ult(lim, offs[1]))
            ok = not smt.feasible(self.relevant(list(self.assume) + list(st.pc), bad), bad)
            self.feas_cache[key] = ok
        if not ok:
            return c
        self.cmp_lemma_used = True
        r = bv.ult(*offs)
        return bv.not_(r) if neg else r

    # ------------------------------------------------------------ running
    def val(self, st, fr, o):
        if o[0] == "r":
            return fr.regs[o[1]]
        key = id(o)
        v = self.kcache.get(key)
        if v is None:
            v = self.kval(fr.fn.mod, o[1], o[2])
            if o[2][0] not in ("undef", "poison"):
                self.kcache[key] = v
        return v

    def call(self, st, fn, args, ret_reg=None):
        regs = {}
        if len(args) < len(fn.args):
            raise Unsupported("call arity " + fn.name)
        for (ty, name, byval), v in zip(fn.args, args):
            regs[name] = v
        self.functions.add((fn.mod.name, fn.name))
        st.frames.append(Frame(fn, fn.entry, regs, ret_reg, next(self.uid)))
        if len(st.frames) > 40:
            raise Unsupported("recursion")

    def start(self, fnname, args, st=None, mod=None):
        st = st or State()
        fn = self.prog.funcs.get(fnname) if mod is None else self.prog.lookup_fn(mod, fnname)
        if fn is None:
            raise Unsupported("no function " + fnname)
        self.call(st, fn, args)
        return st

    def run(self, st, stop=None):
        if isinstance(st, _Stopped):
            return [st.s]
        out = []
        work = [st]
        while work:
            s = work.pop()
            if isinstance(s, _Stopped):
                out.append(s.s)
                continue
            r = self.step(s, stop)
            if r is None:
                out.append(s)
                continue
            states, mp = r
            if mp is None:
                work.extend(reversed(states))
                continue
            depth, block = mp
            st2 = self._mkstop(depth, block, stop)
            reached = []
            for x in states:
                for y in self.run(x, st2):
                    if y.status == "stop" and y.info == ("mp", depth, block):
                        reached.append(y)
                    else:
                        out.append(y)
            merged = []
            for y in reached:
                for i, z in enumerate(merged):
                    m = self.merge_states(z, y)
                    if m is not None:
                        merged[i] = m
                        self.merges += 1
                        break
                else:
                    merged.append(y)
            for y in merged:
                y.status = "run"
                y.info = None
                if stop is not None and self.at_point(y, stop):
                    out.append(y)
                elif not y.frames:
                    y.status = "ret"
                    out.append(y)
                else:
                    work.append(y)
        return out

    def _mkstop(self, depth, block, outer):
        return ("mp", depth, block, outer)

    def at_point(self, s, stop):
        """called at block entry or right after a return"""
        while stop is not None:
            if stop[0] == "mp":
                _, depth, block, outer = stop
                if block is None:
                    if len(s.frames) < depth:
                        s.status = "stop"
                        s.info = ("mp", depth, block)
                        return True
                elif len(s.frames) == depth and s.frames[-1].block == block and \
                        s.frames[-1].idx == self.nphi(s.frames[-1]):
                    s.status = "stop"
                    s.info = ("mp", depth, block)
                    return True
                stop = outer
            else:
                if stop[1](s):
                    s.status = "stop"
                    s.info = ("user",)
                    return True
                stop = stop[2]
        return False

    def nphi(self, fr):
        n = 0
        for i in fr.fn.blocks[fr.block]:
            if i.op == "phi":
                n += 1
            else:
                break
        return n

    def enter(self, st, fr, block):
        fr.prev = fr.block
        fr.block = block
        ins = fr.fn.blocks[block]
        if ins and ins[0].op == "phi":
            vals = []
            n = 0
            for i in ins:
                if i.op != "phi":
                    break
                n += 1
                for o, b in i.a:
                    if b == fr.prev:
                        vals.append((i.res, self.val(st, fr, o)))
                        break
                else:
                    raise Unsupported("phi")
            for r, v in vals:
                fr.regs[r] = v
            fr.idx = n
        else:
            fr.idx = 0

    def merge_states(self, a, b):
        if len(a.frames) != len(b.frames):
            return None
        for x, y in zip(a.frames, b.frames):
            if x.fn is not y.fn or x.block != y.block or x.idx != y.idx or x.uid != y.uid:
                return None
        # common prefix
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]:
            n += 1
        ra, rb = a.pc[n:], b.pc[n:]
        if not ra or not rb:
            cond = None
            ca, cb = bv.conj(ra), bv.conj(rb)
        else:
            ca, cb = bv.conj(ra), bv.conj(rb)
        # a discriminating condition: the first differing conjuncts are complementary
        if ra and rb and rb[0] is bv.not_(ra[0]):
            cond = ra[0]
        else:
            cond = ca
        whole = bv.or_(ca, cb)
        if ra and rb and cond is ra[0] and len(ra) == 1 and len(rb) == 1:
            whole = TRUE

        def mg(x, y):
            if x is y:
                return x
            if isinstance(x, tuple) or isinstance(y, tuple):
                if not (isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y)):
                    return None
                z = tuple(mg(p, q) for p, q in zip(x, y))
                return None if any(t is None for t in z) else z
            if x is None or y is None or x.w != y.w:
                return None
            return bv.ite(cond, x, y)

        m = a.clone()
        m.pc = a.pc[:n] + (() if whole is TRUE else (whole,))
        m.steps = max(a.steps, b.steps)
        for x, y in zip(m.frames, b.frames):
            x.prev = x.prev if x.prev == y.prev else None
            for r in list(x.regs):
                v = y.regs.get(r)
                if v is None:
                    del x.regs[r]
                    continue
                z = mg(x.regs[r], v)
                if z is None:
                    del x.regs[r]
                else:
                    x.regs[r] = z
        for oid in set(a.mem) | set(b.mem):
            oa, ob = a.mem.get(oid), b.mem.get(oid)
            if oa is ob:
                continue
            if oa is None or ob is None:
                m.mem[oid] = oa or ob
                continue
            o = m.wobj(oid)
            keys = set(oa.cells) | set(ob.cells)
            for k in sorted(keys):
                x, y = oa.cells.get(k), ob.cells.get(k)
                if x is not None and y is not None and x[0] == y[0]:
                    if x[1] is not y[1]:
                        o.cells[k] = (x[0], bv.ite(cond, x[1], y[1]))
                    continue
                # byte granularity over the union
                sz = max(x[0] if x else 0, y[0] if y else 0)
                vals = [bv.ite(cond, self.byte_at(oa, k + i), self.byte_at(ob, k + i))
                        for i in range(sz)]
                self.punch(o, k, sz)
                if sz in (1, 2, 4, 8, 16):
                    o.cells[k] = (sz, self.join(vals))
                else:
                    for i, v in enumerate(vals):
                        o.cells[k + i] = (1, v)
        if a.value is not None or b.value is not None:
            m.value = mg(a.value, b.value)
        m.status = a.status
        return m

    # -- one straight-line stretch.  None: terminated/stopped; else (forks, merge point)
    def step(self, st, stop):
        while True:
            if not st.frames:
                st.status = "ret"
                return None
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.block][fr.idx]
            st.steps += 1
            self.total_steps += 1
            if st.steps > self.max_steps:
                raise Limit("step limit")
            op = ins.op
            f = self.OPS.get(op)
            if f is not None:
                fr.regs[ins.res] = f(self, st, fr, ins)
                fr.idx += 1
                continue
            if op == "store":
                v = self.val(st, fr, ins.a[0])
                p = self.val(st, fr, ins.a[1])
                self.do_store(st, fr, ins, v, p)
                fr.idx += 1
                continue
            if op == "br":
                if len(ins.a) == 1:
                    self.enter(st, fr, ins.a[0])
                    if stop is not None and self.at_point(st, stop):
                        return None
                    continue
                c = self.val(st, fr, ins.a[0])
                d = self.decide(st, c)
                if d is not None:
                    self.enter(st, fr, ins.a[1] if d else ins.a[2])
                    if stop is not None and self.at_point(st, stop):
                        return None
                    continue
                self.check_uninit(st, c, ins)
                r = self.fork(st, fr, [(c, ins.a[1]), (bv.not_(c), ins.a[2])], stop)
                if r is None:
                    return None
                return r
            if op == "switch":
                v = self.val(st, fr, ins.a[0])
                if v.op == "const":
                    tgt = ins.a[1]
                    for k, l in ins.a[2]:
                        if k & mask(v.w) == v.k:
                            tgt = l
                            break
                    self.enter(st, fr, tgt)
                    if stop is not None and self.at_point(st, stop):
                        return None
                    continue
                self.check_uninit(st, v, ins)
                groups = {}
                allk = []
                for k, l in ins.a[2]:
                    e = bv.eq(v, const(k, v.w))
                    groups.setdefault(l, []).append(e)
                    allk.append(e)
                opts = []
                for l, es in groups.items():
                    opts.append((bv.disj(es), l))
                opts.append((bv.not_(bv.disj(allk)), ins.a[1]))
                feas = [(c, l) for c, l in opts if self.decide(st, c) is not False]
                if len(feas) == 1:
                    c, l = feas[0]
                    if c is not TRUE:
                        st.pc = st.pc + (c,)
                    self.enter(st, fr, l)
                    if stop is not None and self.at_point(st, stop):
                        return None
                    continue
                return self.fork(st, fr, feas, stop)
            if op == "ret":
                v = self.val(st, fr, ins.a[0]) if ins.a else None
                st.frames.pop()
                if not st.frames:
                    st.value = v
                    if stop is not None and self.at_point(st, stop):
                        return None
                    st.status = "ret"
                    return None
                if fr.ret_reg is not None:
                    st.frames[-1].regs[fr.ret_reg] = v
                if stop is not None and self.at_point(st, stop):
                    return None
                continue
            if op == "unreachable":
                self.event(st, "unreachable", TRUE, ins)
                st.status = "unreachable"
                return None
            if op == "call":
                r = self.do_call(st, fr, ins)
                if r == "next":
                    fr.idx += 1
                    continue
                if r == "pushed":
                    fr.idx += 1
                    continue
                if r == "dead":
                    return None
                return r
            raise Unsupported("op " + op)

    def check_uninit(self, st, c, ins):
        for n in bv.leaves([c]):
            if n.op == "sym" and n.k.startswith("uninit_"):
                self.event(st, "branch on uninitialised value", TRUE, ins)
                return

    def fork(self, st, fr, opts, stop):
        self.forks += 1
        states = []
        block = fr.block
        for i, (c, l) in enumerate(opts):
            s = st.clone() if i < len(opts) - 1 else st
            if c is not TRUE:
                s.pc = s.pc + (c,)
            s.frames[-1].idx = -1
            states.append((s, l))
        mp = None
        if self.merge:
            ip, loops = fr.fn.cfg()
            tgt = ip.get(block)
            # innermost loop containing the branch
            inner = None
            for h, body in loops.items():
                if block in body and (inner is None or len(body) < len(inner)):
                    inner = body
            if inner is None or (tgt is not None and tgt in inner):
                mp = (len(st.frames), tgt)
        out = []
        for s, l in states:
            f = s.frames[-1]
            f.block = block
            self.enter(s, f, l)
            out.append(s)
        if mp is None:
            res = []
            for s in out:
                if stop is not None and self.at_point(s, stop):
                    # already stopped: hand back through a zero-step wrapper
                    s.status = "stop"
                res.append(s)
            return ([_Stopped(s) if s.status == "stop" else s for s in res], None) \
                if any(s.status == "stop" for s in res) else (res, None)
        st2 = self._mkstop(mp[0], mp[1], stop)
        res = []
        for s in out:
            if self.at_point(s, st2):
                res.append(_Stopped(s))
            else:
                res.append(s)
        return (res, mp)

    # ------------------------------------------------------------ instructions
    def do_store(self, st, fr, ins, v, p):
        m = fr.fn.mod
        t = m.resolve(ins.t)
        if isinstance(v, tuple):
            self.store_agg(st, fr, ins, t, v, p)
            return
        if t[0] == "vec":
            n = t[1]
            if self.big:
                v = bv.concat(*self.lanes(v, n))
        if v.w % 8:
            v = bv.zext(v, (v.w + 7) // 8 * 8)
        self.write(st, p, v, ins, ins.x or 1)

    def store_agg(self, st, fr, ins, t, v, p):
        m = fr.fn.mod
        if t[0] == "st":
            offs, _ = m.fields(t)
            ts = t[1]
        else:
            ts = [t[2]] * t[1]
            offs = [i * m.size(t[2]) for i in range(t[1])]
        for x, o, et in zip(v, offs, ts):
            q = bv.add(p, const(o, self.w))
            if isinstance(x, tuple):
                self.store_agg(st, fr, ins, m.resolve(et), x, q)
            else:
                if x.w % 8:
                    x = bv.zext(x, (x.w + 7) // 8 * 8)
                self.write(st, q, x, ins, 1)

    def i_load(self, st, fr, ins):
        m = fr.fn.mod
        t = m.resolve(ins.t)
        p = self.val(st, fr, ins.a[0])
        if t[0] in ("st", "arr"):
            return self.load_agg(st, fr, ins, t, p)
        w = m.bits(t)
        n = (w + 7) // 8
        v = self.read(st, p, n, ins, ins.x or 1)
        if w % 8:
            v = bv.ext(v, w - 1, 0)
        if t[0] == "vec" and self.big:
            k = t[1]
            v = bv.concat(*self.lanes(v, k))
        return v

    def load_agg(self, st, fr, ins, t, p):
        m = fr.fn.mod
        if t[0] == "st":
            offs, _ = m.fields(t)
            ts = t[1]
        else:
            ts = [t[2]] * t[1]
            offs = [i * m.size(t[2]) for i in range(t[1])]
        out = []
        for o, et in zip(offs, ts):
            et = m.resolve(et)
            q = bv.add(p, const(o, self.w))
            if et[0] in ("st", "arr"):
                out.append(self.load_agg(st, fr, ins, et, q))
            else:
                w = m.bits(et)
                v = self.read(st, q, (w + 7) // 8, ins, 1)
                out.append(bv.ext(v, w - 1, 0) if w % 8 else v)
        return tuple(out)

    def i_alloca(self, st, fr, ins):
        m = fr.fn.mod
        n = 1
        if ins.a[0] is not None:
            c = self.val(st, fr, ins.a[0][1])
            n = self.concretise(st, c)
            if n is None:
                raise Unsupported("variable-length array")
        o = self.new_obj(st, "%s.%s" % (fr.fn.name, ins.res), "alloca", m.size(ins.t) * n,
                         ins.x or m.align(ins.t))
        return o.base

    def i_gep(self, st, fr, ins):
        base = self.val(st, fr, ins.a[0])
        idx = [(t, self.val(st, fr, o)) for t, o in ins.a[1]]
        return self.gep(fr.fn.mod, ins.t, base, idx)

    def lanewise(self, st, fr, ins, f):
        m = fr.fn.mod
        t = m.resolve(ins.t)
        a = self.val(st, fr, ins.a[0])
        b = self.val(st, fr, ins.a[1])
        if t[0] == "vec" and ins.op not in ("and", "or", "xor"):
            n = t[1]
            return self.vec([f(x, y) for x, y in zip(self.lanes(a, n), self.lanes(b, n))])
        return f(a, b)

    def i_bin(self, st, fr, ins):
        op = ins.op
        if op in ("add", "sub", "mul") and ins.x:
            a = self.val(st, fr, ins.a[0])
            b = self.val(st, fr, ins.a[1])
            if not isinstance(a, tuple) and fr.fn.mod.resolve(ins.t)[0] == "i":
                self.overflow_check(st, ins, op, a, b)
        if op in ("shl", "lshr", "ashr"):
            b = self.val(st, fr, ins.a[1])
            t = fr.fn.mod.resolve(ins.t)
            lanes = self.lanes(b, t[1]) if t[0] == "vec" else [b]
            for x in lanes:
                if x.op == "const":
                    if x.k >= x.w:
                        self.event(st, "shift amount >= width", TRUE, ins)
                else:
                    c = bv.not_(bv.ult(x, const(x.w, x.w)))
                    if c is not FALSE:
                        self.event(st, "shift amount >= width", c, ins)
        f = {"add": bv.add, "sub": bv.sub, "mul": bv.mul, "and": bv.and_, "or": bv.or_,
             "xor": bv.xor, "shl": bv.shl, "lshr": bv.lshr, "ashr": bv.ashr,
             "udiv": bv.udiv, "urem": bv.urem}.get(op)
        if f is None:
            f = {"sdiv": self.sdiv, "srem": self.srem}[op]
            if op == "sdiv" and "exact" in ins.x:
                f = lambda a, b: self.sdiv(a, b, True)
        if op in ("udiv", "urem", "sdiv", "srem"):
            b = self.val(st, fr, ins.a[1])
            z = bv.eq(b, const(0, b.w))
            if z is not FALSE:
                self.event(st, "division by zero", z, ins)
        return self.lanewise(st, fr, ins, f)

    def sdiv(self, a, b, exact=False):
        w = a.w
        if bv.top_zeros(a) and bv.top_zeros(b):
            return bv.udiv(a, b)
        neg = bv.ext(a, w - 1, w - 1)
        if b.op == "const" and b.k and b.k & (b.k - 1) == 0 and not b.k >> (w - 1):
            k = b.k.bit_length() - 1
            if not exact:
                a = bv.add(a, bv.ite(neg, const(b.k - 1, w), const(0, w)))
            return bv.ashr(a, const(k, w))
        bneg = bv.ext(b, w - 1, w - 1)
        q = bv.udiv(bv.ite(neg, bv.neg(a), a), bv.ite(bneg, bv.neg(b), b))
        return bv.ite(bv.xor(neg, bneg), bv.neg(q), q)

    def srem(self, a, b):
        w = a.w
        if bv.top_zeros(a) and bv.top_zeros(b):
            return bv.urem(a, b)
        neg = bv.ext(a, w - 1, w - 1)
        bneg = bv.ext(b, w - 1, w - 1)
        r = bv.urem(bv.ite(neg, bv.neg(a), a), bv.ite(bneg, bv.neg(b), b))
        return bv.ite(neg, bv.neg(r), r)

    def overflow_check(self, st, ins, op, a, b):
        w = a.w
        for fl in ins.x:
            if fl == "nsw":
                if a.op == "const" and b.op == "const":
                    s = lambda v: v - (1 << w) if v >> (w - 1) else v
                    r = {"add": s(a.k) + s(b.k), "sub": s(a.k) - s(b.k), "mul": s(a.k) * s(b.k)}[op]
                    if not -(1 << (w - 1)) <= r < (1 << (w - 1)):
                        self.event(st, "signed overflow", TRUE, ins)
                    continue
                e = w if op == "mul" else 1
                x, y = bv.sext(a, w + e), bv.sext(b, w + e)
                r = {"add": bv.add, "sub": bv.sub, "mul": bv.mul}[op](x, y)
                top = bv.ext(r, w + e - 1, w - 1)
                ok = bv.or_(bv.eq(top, const(0, top.w)), bv.eq(top, const(mask(top.w), top.w)))
                c = bv.not_(ok)
                if c is not FALSE:
                    self.event(st, "signed overflow", c, ins)

    def i_icmp(self, st, fr, ins):
        m = fr.fn.mod
        t = m.resolve(ins.t)
        a = self.val(st, fr, ins.a[0])
        b = self.val(st, fr, ins.a[1])
        if t[0] == "vec":
            n = t[1]
            return self.vec([self.icmp(st, ins.x, x, y)
                             for x, y in zip(self.lanes(a, n), self.lanes(b, n))])
        return self.icmp(st, ins.x, a, b)

    def i_cast(self, st, fr, ins):
        m = fr.fn.mod
        v = self.val(st, fr, ins.a[0])
        t = m.resolve(ins.t)
        ft = m.resolve(ins.x)
        w = m.bits(t)
        if ins.op in ("zext", "sext", "trunc") and t[0] == "vec":
            n = t[1]
            return self.vec([self.cast(ins.op, x, w // n) for x in self.lanes(v, n)])
        if ins.op == "bitcast" and self.big and (t[0] == "vec" or ft[0] == "vec"):
            raise Unsupported("vector bitcast on BE")
        return self.cast(ins.op, v, w)

    def i_select(self, st, fr, ins):
        c = self.val(st, fr, ins.a[0])
        a = self.val(st, fr, ins.a[1])
        b = self.val(st, fr, ins.a[2])
        if c.w != 1:
            n = c.w
            return self.vec([bv.ite(bv.ext(c, i, i), x, y) for i, (x, y) in
                             enumerate(zip(self.lanes(a, n), self.lanes(b, n)))])
        d = None
        if c.op != "const":
            d = self.fast_cmp(c)
            if d is not None:
                c = TRUE if d else FALSE
        if isinstance(a, tuple):
            if c.op == "const":
                return a if c.k else b
            return tuple(bv.ite(c, x, y) for x, y in zip(a, b))
        return bv.ite(c, a, b)

    def i_extractelement(self, st, fr, ins):
        m = fr.fn.mod
        t = m.resolve(ins.t)
        v = self.val(st, fr, ins.a[0])
        i = self.val(st, fr, ins.a[1])
        if i.op != "const":
            raise Unsupported("variable lane")
        return self.lanes(v, t[1])[i.k]

    def i_insertelement(self, st, fr, ins):
        m = fr.fn.mod
        t = m.resolve(ins.t)
        v = self.val(st, fr, ins.a[0])
        e = self.val(st, fr, ins.a[1])
        i = self.val(st, fr, ins.a[2])
        if i.op != "const":
            raise Unsupported("variable lane")
        xs = self.lanes(v, t[1])
        xs[i.k] = e
        return self.vec(xs)

    def i_shuffle(self, st, fr, ins):
        m = fr.fn.mod
        t = m.resolve(ins.t)
        a = self.val(st, fr, ins.a[0])
        b = self.val(st, fr, ins.a[1])
        xs = self.lanes(a, t[1]) + self.lanes(b, t[1])
        mk = ins.a[2]
        mt = m.resolve(ins.x)
        out = []
        if mk[0] == "zero":
            out = [xs[0]] * mt[1]
        elif mk[0] == "agg":
            for et, ec in mk[2]:
                if ec[0] in ("undef", "poison"):
                    out.append(bv.sym("uninit_undef%d" % next(self.uninit), xs[0].w))
                else:
                    out.append(xs[ec[2]])
        else:
            raise Unsupported("shuffle mask")
        return self.vec(out)

    def i_extractvalue(self, st, fr, ins):
        v = self.val(st, fr, ins.a[0])
        for i in ins.a[1]:
            v = v[i]
        return v

    def i_insertvalue(self, st, fr, ins):
        v = self.val(st, fr, ins.a[0])
        e = self.val(st, fr, ins.a[1])
        ix = ins.a[2]
        if len(ix) != 1:
            raise Unsupported("nested insertvalue")
        v = list(v)
        v[ix[0]] = e
        return tuple(v)

    def i_freeze(self, st, fr, ins):
        return self.val(st, fr, ins.a[0])

    OPS = {}

    # ------------------------------------------------------------ calls
    def do_call(self, st, fr, ins):
        callee, args = ins.a
        k = callee[0]
        if k == "asm":
            av = [self.val(st, fr, o) for _, o, _ in args]
            fr.regs[ins.res] = self.do_asm(st, fr, ins, callee[1], callee[2], av)
            return "next"
        if k == "f":
            name = callee[1]
            if name.startswith("llvm."):
                return self.intrinsic(st, fr, ins, name, args)
            av = [self.val(st, fr, o) for _, o, _ in args]
            return self.invoke(st, fr, ins, fr.fn.mod, name, av)
        # through a pointer
        p = fr.regs[callee[1]] if k == "r" else self.kval(fr.fn.mod, ir.PTR, callee[2])
        av = [self.val(st, fr, o) for _, o, _ in args]
        return self.invoke_ptr(st, fr, ins, p, av)

    def invoke_ptr(self, st, fr, ins, p, av):
        opts = self.fn_targets(p)
        feas = []
        for cond, target in opts:
            if self.decide(st, cond) is not False:
                feas.append((cond, target))
        if not feas:
            raise Unsupported("no call target")
        bad = [c for c, t in feas if t is None]
        for c in bad:
            self.event(st, "call through invalid pointer", c, ins)
        feas = [(c, t) for c, t in feas if t is not None]
        if not feas:
            st.status = "abort"
            return "dead"
        if len(feas) == 1:
            if bad:
                st.pc = st.pc + (feas[0][0],)
            mod, name = feas[0][1]
            return self.invoke(st, fr, ins, mod, name, av)
        states = []
        for i, (c, (mod, name)) in enumerate(feas):
            s = st.clone() if i < len(feas) - 1 else st
            s.pc = s.pc + (c,)
            r = self.invoke(s, s.frames[-1], ins, mod, name, av)
            if r == "dead":
                states.append(_Stopped(s))
                continue
            if r in ("next", "pushed"):
                # frames[-1] may be the callee now
                f = s.frames[len(st.frames) - 1] if r == "next" else s.frames[-2]
                f.idx += 1
                states.append(s)
            else:
                raise Unsupported("nested dispatch")
        return (states, None)

    def fn_targets(self, p):
        if p.op == "ite":
            c = p.args[0]
            out = []
            for cc, t in self.fn_targets(p.args[1]):
                out.append((bv.and_(c, cc), t))
            for cc, t in self.fn_targets(p.args[2]):
                out.append((bv.and_(bv.not_(c), cc), t))
            # join equal targets
            g = {}
            for cc, t in out:
                g.setdefault(t, []).append(cc)
            return [(bv.disj(cs), t) for t, cs in g.items()]
        if p.op == "concat" and any(x.op == "ite" for x in p.args):
            # ite pushed inside a concat: enumerate over conditions
            x = [x for x in p.args if x.op == "ite"][0]
            c = x.args[0]
            a = bv.substitute([p], {x: x.args[1]})[0]
            b = bv.substitute([p], {x: x.args[2]})[0]
            return self.fn_targets(bv._mk("ite", p.w, (c, a, b)) if a is not b else a)
        if p.id in self.fnaddr:
            return [(TRUE, self.fnaddr[p.id])]
        return [(TRUE, None)]

    def invoke(self, st, fr, ins, mod, name, av):
        h = self.hooks.get(name)
        if h is not None:
            r = h(self, st, fr, ins, av)
            if r is not NotImplemented:
                if st.status != "run":
                    return "dead"
                if ins.res is not None:
                    fr.regs[ins.res] = r
                return "next"
        fn = self.prog.lookup_fn(mod, name)
        if fn is not None:
            if self.summaries and self.summary(st, fr, ins, fn, av):
                return "next"
            self.call(st, fn, av, ins.res)
            return "pushed"
        if name in self.prog.ifuncs:
            # the dynamic linker calls the resolver, then binds
            m, res = self.prog.ifuncs[name]
            p = self.resolve_ifunc(m, res)
            return self.invoke_ptr(st, fr, ins, p, av)
        r = self.libcall(st, fr, ins, name, av)
        if r is NotImplemented:
            raise Unsupported("external function " + name)
        return r

    def summary(self, st, fr, ins, fn, av):
        """a local helper i64(i64 x, i64 const p, ptr h) that provably stores the
        high and returns the low half of x*p is replaced by that product"""
        if not fn.internal or len(fn.args) != 3 or len(av) != 3 or self.prog.big is None:
            return False
        m = fn.mod
        ts = [m.resolve(a[0]) for a in fn.args]
        if ts[0] != ("i", 64) or ts[1] != ("i", 64) or ts[2][0] != "ptr" or \
                m.resolve(fn.ret) != ("i", 64):
            return False
        if isinstance(av[0], tuple) or av[1].op != "const" or av[0].op == "const":
            return False
        cache = self.prog.__dict__.setdefault("mul_summaries", {})
        key = (fn.mod.name, fn.name, av[1].k)
        ok = cache.get(key)
        if ok is None:
            cache[key] = False
            ok = cache[key] = prove_product(self.prog, fn, av[1].k)
        if not ok:
            return False
        self.functions.add((fn.mod.name, fn.name))
        self.write(st, av[2], bv.umulh(av[0], av[1]), ins, 8)
        fr.regs[ins.res] = bv.mul(av[0], av[1])
        return True

    def resolve_ifunc(self, m, res):
        fn = self.prog.lookup_fn(m, res)
        s = State()
        self.call(s, fn, [])
        rs = [x for x in self.run(s) if x.status == "ret"]
        p = None
        for x in rs:
            p = x.value if p is None else bv.ite(bv.conj(x.pc), x.value, p)
        return p

    def libcall(self, st, fr, ins, name, av):
        if name in ("memcpy", "memmove", "__memcpy_chk"):
            n = self.concretise_size(st, av[2])
            if n is None:
                return self.fork_size(st, fr, av[2])
            self.memcpy(st, av[0], av[1], n, ins)
            fr.regs[ins.res] = av[0]
            return "next"
        if name == "memset":
            n = self.concretise_size(st, av[2])
            if n is None:
                return self.fork_size(st, fr, av[2])
            self.memset(st, av[0], bv.ext(av[1], 7, 0), n, ins)
            fr.regs[ins.res] = av[0]
            return "next"
        if name in ("__assert_fail", "__assert", "abort", "__assert_rtn", "_assert", "_wassert",
                    "__assert_func", "__stub_assert_fail"):
            self.event(st, "assertion failure", TRUE, ins)
            st.status = "abort"
            return "dead"
        return NotImplemented

    def concretise_size(self, st, n):
        if n.op == "const":
            return n.k
        return self.concretise(st, n)

    def fork_size(self, st, fr, n):
        """several feasible sizes: one state each (the call is re-executed)"""
        vs = self.enum_values(st, n, 130)
        states = []
        for i, v in enumerate(vs):
            s = st.clone() if i < len(vs) - 1 else st
            s.pc = s.pc + (bv.eq(n, const(v, n.w)),)
            states.append(s)
        return (states, None)

    def intrinsic(self, st, fr, ins, name, args):
        base = name[5:]
        if base.startswith(("lifetime.", "dbg.", "prefetch", "donothing", "experimental.noalias",
                            "var.annotation", "x86.mmx.emms", "x86.avx.vzeroupper",
                            "x86.avx.vzeroall", "invariant.")):
            if base.startswith("lifetime.start"):
                # contents become indeterminate
                p = self.val(st, fr, args[1][1])
                d = self.decode(p)
                if d is not None and d[1].op == "const" and d[1].k == 0:
                    o = self.getobj(st, d[0])
                    if o.kind == "alloca" and o.cells:
                        o = st.wobj(d[0])
                        o.cells.clear()
            return "next"
        av = [self.val(st, fr, o) for _, o, _ in args]
        r = None
        if base.startswith("expect"):
            r = av[0]
        elif base.startswith("bswap"):
            r = bv.bswap(av[0])
        elif base.startswith("assume"):
            if av[0] is not TRUE:
                self.event(st, "assumption violated", bv.not_(av[0]), ins)
            for nm, ops in ins.x or []:
                if nm == "align":
                    p = self.val(st, fr, ops[0][1])
                    a = self.val(st, fr, ops[1][1])
                    if a.op == "const" and a.k > 1:
                        b = a.k.bit_length() - 1
                        c = bv.not_(bv.eq(bv.ext(p, b - 1, 0), const(0, b)))
                        if c is not FALSE:
                            self.event(st, "alignment assumption violated", c, ins)
            return "next"
        elif base.startswith(("memcpy", "memmove")):
            n = self.concretise_size(st, av[2])
            if n is None:
                return self.fork_size(st, fr, av[2])
            self.memcpy(st, av[0], av[1], n, ins)
            return "next"
        elif base.startswith("memset"):
            n = self.concretise_size(st, av[2])
            if n is None:
                return self.fork_size(st, fr, av[2])
            self.memset(st, av[0], av[1], n, ins)
            return "next"
        elif base.startswith("fshl"):
            r = self.vecmap(fr, ins, bv.fshl, av)
        elif base.startswith("fshr"):
            r = self.vecmap(fr, ins, bv.fshr, av)
        elif base.startswith("umin"):
            r = self.vecmap(fr, ins, lambda a, b: bv.ite(bv.ult(a, b), a, b), av)
        elif base.startswith("umax"):
            r = self.vecmap(fr, ins, lambda a, b: bv.ite(bv.ult(a, b), b, a), av)
        elif base.startswith("uadd.with.overflow"):
            s = bv.add(av[0], av[1])
            r = (s, bv.ult(s, av[0]))
        elif base.startswith("usub.with.overflow"):
            r = (bv.sub(av[0], av[1]), bv.ult(av[0], av[1]))
        elif base[1:].startswith(("add.with.overflow", "sub.with.overflow",
                                  "mul.with.overflow")) and base[0] in "su":
            w = av[0].w
            e = w if base[1] == "m" else 1
            f = {"a": bv.add, "s": bv.sub, "m": bv.mul}[base[1]]
            g = bv.sext if base[0] == "s" else bv.zext
            x = f(g(av[0], w + e), g(av[1], w + e))
            if base[0] == "s":
                top = bv.ext(x, w + e - 1, w - 1)
                o = bv.not_(bv.or_(bv.eq(top, const(0, top.w)),
                                   bv.eq(top, const(mask(top.w), top.w))))
            else:
                o = bv.not_(bv.eq(bv.ext(x, w + e - 1, w), const(0, e)))
            r = (f(av[0], av[1]), o)
        elif base.startswith("smin"):
            r = self.vecmap(fr, ins, lambda a, b: bv.ite(bv.slt(a, b), a, b), av)
        elif base.startswith("smax"):
            r = self.vecmap(fr, ins, lambda a, b: bv.ite(bv.slt(a, b), b, a), av)
        elif base.startswith("abs."):
            r = self.vecmap(fr, ins, lambda a: bv.ite(bv.ext(a, a.w - 1, a.w - 1), bv.neg(a), a),
                            av[:1])
        elif base.startswith("ctpop."):
            a = av[0]
            r = const(0, a.w)
            for i in range(a.w):
                r = bv.add(r, bv.zext(bv.ext(a, i, i), a.w))
        elif base.startswith(("cttz.", "ctlz.")):
            a = av[0]
            w = a.w
            r = const(w, w)
            for i in (range(w) if base[2] == "l" else range(w - 1, -1, -1)):
                r = bv.ite(bv.ext(a, i, i), const(w - 1 - i if base[2] == "l" else i, w), r)
        elif base.startswith("x86.aesni.aesenc") and not base.startswith("x86.aesni.aesenclast"):
            r = bv.aesenc(av[0], av[1])
        elif base.startswith("x86.aesni.aesdec") and not base.startswith("x86.aesni.aesdeclast"):
            r = bv.aesdec(av[0], av[1])
        elif base.startswith("is.constant"):
            r = FALSE
        elif base.startswith("objectsize"):
            r = const(mask(fr.fn.mod.bits(ins.t)), fr.fn.mod.bits(ins.t))
        elif base.startswith("trap") or base.startswith("ubsantrap"):
            self.event(st, "trap", TRUE, ins)
            st.status = "abort"
            return "dead"
        elif base.startswith("x86.addcarry.64") or base.startswith("x86.addcarry.32"):
            w = av[1].w
            c = bv.not_(bv.eq(av[0], const(0, 8)))
            s1 = bv.add(av[1], av[2])
            s2 = bv.add(s1, bv.zext(c, w))
            co = bv.or_(bv.ult(s1, av[1]), bv.ult(s2, s1))
            r = (bv.zext(co, 8), s2)
        else:
            raise Unsupported("intrinsic " + name)
        if ins.res is not None:
            fr.regs[ins.res] = r
        return "next"

    def vecmap(self, fr, ins, f, av):
        t = fr.fn.mod.resolve(ins.t)
        if t[0] == "vec":
            n = t[1]
            ls = [self.lanes(a, n) for a in av]
            return self.vec([f(*xs) for xs in zip(*ls)])
        return f(*av)

    def do_asm(self, st, fr, ins, code, cons, av):
        h = self.hooks.get("asm")
        if h is not None:
            return h(self, st, fr, ins, code, cons, av)
        raise Unsupported("inline asm " + code)


def prove_product(prog, fn, k):
    """contract of the portable multiplication helper for one constant factor:
    all x, decided by z3 over 32x32->64 products"""
    from . import eqv
    c = Ctx(prog)
    c.summaries = False
    st = State()
    o = c.new_obj(st, "h", "alloca", 8, 8)
    x = bv.sym("mulx", 64)
    try:
        c.call(st, fn, [x, const(k, 64), o.base])
        rs = c.run(st)
    except (Unsupported, Limit, NeedSplit):
        return False
    rs = [r for r in rs if r.status == "ret"]
    if len(rs) != 1 or rs[0].pc or any(a.kind == "W" and a.obj not in ("h",) and
                                       a.okind != "alloca" for a in c.accesses):
        return False
    lo = rs[0].value
    hi = c.join(c.load_bytes(rs[0].mem[o.id], 0, 8))
    H, L = bv.umulh(x, const(k, 64)), bv.mul(x, const(k, 64))
    for a, b in ((hi, H), (lo, L)):
        if a is b:
            continue
        for e in eqv.sim_envs(6):
            va, vb = bv.evaluate([a, b], e)
            if va != vb:
                return False
        if not eqv.prove_local(a, b, set(), 30000):
            return False
    return True


class _Stopped:
    """wrapper marking a state that must not be stepped further"""

    def __init__(self, s):
        self.s = s


for _o in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem",
           "sdiv", "srem"):
    Ctx.OPS[_o] = Ctx.i_bin
for _o in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "addrspacecast"):
    Ctx.OPS[_o] = Ctx.i_cast
Ctx.OPS.update({"load": Ctx.i_load, "alloca": Ctx.i_alloca, "gep": Ctx.i_gep,
                "icmp": Ctx.i_icmp, "select": Ctx.i_select,
                "extractelement": Ctx.i_extractelement, "insertelement": Ctx.i_insertelement,
                "shufflevector": Ctx.i_shuffle, "extractvalue": Ctx.i_extractvalue,
                "insertvalue": Ctx.i_insertvalue, "freeze": Ctx.i_freeze})
