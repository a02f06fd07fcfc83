"""A concrete machine for the IR of configurations that cannot run natively
(other byte orders, other word sizes).  Independent of the symbolic executor:
plain integers, flat byte memory, real addresses.  It runs the scenario
language of c/driver.c."""
import json
import sys
from . import build, ir, sx

PG = 4096


class Fault(Exception):
    pass


def mask(w):
    return (1 << w) - 1


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


SBOX = None


def sbox():
    global SBOX
    if SBOX is None:
        p = q = 1
        s = [0] * 256
        while True:
            p = p ^ ((p << 1) & 255) ^ (0x1B if p & 0x80 else 0)
            q ^= q << 1
            q ^= q << 2
            q ^= q << 4
            q &= 255
            if q & 0x80:
                q ^= 0x09
            x = q
            for k in range(1, 5):
                x ^= ((q << k) | (q >> (8 - k))) & 255
            s[p] = x ^ 0x63
            if p == 1:
                break
        s[0] = 0x63
        SBOX = s
    return SBOX


def gm(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a = (a << 1) ^ (0x11B if a & 0x80 else 0)
        b >>= 1
    return r


def aes(x, k, dec):
    s = [(x >> (8 * i)) & 255 for i in range(16)]
    sb = sbox()
    if dec:
        inv = [0] * 256
        for i, v in enumerate(sb):
            inv[v] = i
        t = [inv[s[(i - 4 * (i % 4)) % 16]] for i in range(16)]
        c = (14, 11, 13, 9)
    else:
        t = [sb[s[(i + 4 * (i % 4)) % 16]] for i in range(16)]
        c = (2, 3, 1, 1)
    out = 0
    for col in range(4):
        v = t[4 * col:4 * col + 4]
        for r in range(4):
            b = 0
            for j in range(4):
                b ^= gm(v[(r + j) % 4], c[j])
            out |= b << (8 * (4 * col + r))
    return out ^ k


class Machine:
    def __init__(self, prog, fill=0xA5, cpuid=None):
        self.p = prog
        self.w = prog.ptrw
        self.big = prog.big
        self.m = mask(self.w)
        self.mem = {}
        self.rw = {}                # page -> "rw" / "r"
        self.fill = fill
        self.next = 0x10000
        self.gaddr = {}
        self.faddr = {}
        self.fnat = {}
        self.sp = self.alloc(1 << 18) + (1 << 18)
        self.range = None           # (map lo, map hi, key lo, key hi)
        self.align = False
        self.tracing = False
        self.msgs = []
        self.cpuid = cpuid
        self.steps = 0
        self.undefs = 0
        self.hooks = {}             # name -> python function

    # ------------------------------------------------------------ memory
    def alloc(self, n, low=0, mode="rw"):
        pages = (low + max(n, 1) - 1) // PG + 1
        a = self.next
        self.next += (pages + 2) * PG
        for i in range(pages):
            self.rw[a // PG + i] = mode
        return a + low

    def check(self, a, n, write):
        for pg in range(a // PG, (a + n - 1) // PG + 1):
            m = self.rw.get(pg)
            if m is None or (write and m == "r"):
                raise Fault("%s of %d bytes at %#x" % ("write" if write else "read", n, a))

    def rd(self, a, n):
        self.check(a, n, False)
        return [self.mem.get(a + i, self.fill) for i in range(n)]

    def wr(self, a, bs):
        self.check(a, len(bs), True)
        for i, b in enumerate(bs):
            self.mem[a + i] = b

    def load(self, a, n):
        return int.from_bytes(bytes(self.rd(a, n)), "big" if self.big else "little")

    def store(self, a, v, n):
        self.wr(a, list(v.to_bytes(n, "big" if self.big else "little")))

    def trace(self, a, n, align, bytewise):
        if not self.tracing:
            return
        r = self.range
        if r and a + n > r[0] and a < r[1] and (a < r[2] or a + n > r[3]):
            self.msgs.append("%d-byte read at offset %d" % (n, a - r[2]))
        if self.align and not bytewise and n > 1 and align > 1 and a % min(n, self.w // 8):
            self.msgs.append("%d-byte load from a misaligned address" % n)

    # ------------------------------------------------------------ constants
    def fnaddr(self, mod, name):
        f = self.p.lookup_fn(mod, name)
        key = (f.mod.name if f is not None and f.internal else "", name)
        a = self.faddr.get(key)
        if a is None:
            a = self.faddr[key] = 0x1000 + 16 * (len(self.faddr) + 1)
            self.fnat[a] = (mod, name)
        return a

    def global_(self, mod, name):
        r = self.p.lookup_global(mod, name)
        if r is None:
            raise sx.Unsupported("external global " + name)
        m, n, g, internal = r
        key = (m.name if internal else "", n)
        a = self.gaddr.get(key)
        if a is None:
            ty, init, isconst, _ = g
            a = self.gaddr[key] = self.alloc(m.size(ty))
            for i in range(m.size(ty)):
                self.mem[a + i] = 0
            self.init(m, ty, init, a)
            if isconst:
                for pg in range(a // PG, (a + m.size(ty) - 1) // PG + 1):
                    self.rw[pg] = "r"
        return a

    def init(self, m, ty, c, a):
        t = m.resolve(ty)
        if c[0] in ("zero", "undef", "poison"):
            return
        if c[0] == "str":
            self.wr(a, list(c[1]))
            return
        if c[0] == "agg":
            if t[0] == "st":
                for (et, ec), fo in zip(c[2], m.fields(t)[0]):
                    self.init(m, et, ec, a + fo)
            else:
                for i, (et, ec) in enumerate(c[2]):
                    self.init(m, et, ec, a + i * m.size(t[2]))
            return
        n = (m.bits(ty) + 7) // 8
        self.store(a, self.const(m, ty, c), n)

    def const(self, m, ty, c):
        k = c[0]
        t = m.resolve(ty)
        if k == "int":
            return c[2] & mask(m.bits(ty))
        if k in ("null",):
            return 0
        if k in ("zero", "undef", "poison"):
            if t[0] in ("st", "arr"):
                ts = [t[2]] * t[1] if t[0] == "arr" else t[1]
                return tuple(self.const(m, x, c) for x in ts)
            w = m.bits(ty)
            return 0 if k == "zero" else int.from_bytes(bytes([self.fill]) * 64, "little") & mask(w)
        if k == "g":
            if c[1] in self.p.ifuncs or self.p.lookup_fn(m, c[1]) is not None or c[1] in m.decls:
                return self.fnaddr(m, c[1])
            return self.global_(m, c[1])
        if k == "gep":
            idx = [(x, self.const(m, x, y)) for x, y in c[2][1:]]
            return self.gep(m, c[1], self.const(m, ir.PTR, c[2][0][1]), idx)
        if k == "cast":
            return self.cast(c[1], self.const(m, c[3], c[2]), m.bits(c[3]), m.bits(c[4]))
        if k == "bin":
            return self.bin(c[1], self.const(m, c[4], c[2]), self.const(m, c[4], c[3]), m.bits(c[4]))
        if k == "agg":
            if t[0] == "vec":
                w = m.bits(t[2])
                return sum(self.const(m, et, ec) << (w * i) for i, (et, ec) in enumerate(c[2]))
            return tuple(self.const(m, et, ec) for et, ec in c[2])
        raise sx.Unsupported("constant " + k)

    # ------------------------------------------------------------ arithmetic
    def bin(self, op, a, b, w):
        m = mask(w)
        if op in ("shl", "lshr", "ashr") and b >= w:
            self.msgs.append("shift by %d of a %d-bit value" % (b, w))
            return 0
        if op == "add":
            return (a + b) & m
        if op == "sub":
            return (a - b) & m
        if op == "mul":
            return (a * b) & m
        if op == "and":
            return a & b
        if op == "or":
            return a | b
        if op == "xor":
            return a ^ b
        if op == "shl":
            return (a << b) & m
        if op == "lshr":
            return a >> b
        if op == "ashr":
            return (sgn(a, w) >> b) & m
        if op in ("udiv", "urem"):
            if not b:
                raise Fault("division by zero")
            return a // b if op == "udiv" else a % b
        if op in ("sdiv", "srem"):
            x, y = sgn(a, w), sgn(b, w)
            if not y:
                raise Fault("division by zero")
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return (q if op == "sdiv" else x - q * y) & m
        raise sx.Unsupported(op)

    def cmp(self, pred, a, b, w):
        if pred in ("eq", "ne"):
            return int((a == b) == (pred == "eq"))
        if pred[0] == "s":
            a, b = sgn(a, w), sgn(b, w)
        return int({"lt": a < b, "gt": a > b, "le": a <= b, "ge": a >= b}[pred[1:]])

    def cast(self, op, v, fw, w):
        if op == "sext":
            return sgn(v, fw) & mask(w)
        return v & mask(w)

    def gep(self, m, bt, p, idx):
        t = bt
        for i, (it, v) in enumerate(idx):
            s = sgn(v, m.bits(it))
            if i == 0:
                p += s * m.size(t)
                continue
            t = m.resolve(t)
            if t[0] == "st":
                p += m.fields(t)[0][s]
                t = t[1][s]
            else:
                t = t[2]
                p += s * m.size(t)
        return p & self.m

    def lanes(self, v, n, w):
        return [(v >> (i * w)) & mask(w) for i in range(n)]

    def join(self, xs, w):
        return sum(x << (i * w) for i, x in enumerate(xs))

    # ------------------------------------------------------------ running
    def call(self, mod, name, args):
        if name in self.hooks:
            return self.hooks[name](*args)
        fn = self.p.lookup_fn(mod, name) if mod is not None else self.p.funcs.get(name)
        if fn is None:
            if name in self.p.ifuncs:
                m, r = self.p.ifuncs[name]
                a = self.call(m, r, [])
                return self.call(*self.fnat[a], args)
            return self.lib(name, args)
        return self.run(fn, args)

    def lib(self, name, a):
        if name in ("memcpy", "memmove"):
            if a[2]:
                self.trace(a[1], a[2], 1, True)
                self.wr(a[0], self.rd(a[1], a[2]))
            return a[0]
        if name == "memset":
            if a[2]:
                self.wr(a[0], [a[1] & 255] * a[2])
            return a[0]
        if "assert" in name or name == "abort":
            raise Fault("assertion failure")
        raise sx.Unsupported("external function " + name)

    def run(self, fn, args):
        m = fn.mod
        regs = {a[1]: v for a, v in zip(fn.args, args)}
        sp0 = self.sp
        blk, prev = fn.entry, None
        R = m.resolve

        def val(o):
            if o[0] == "r":
                return regs[o[1]]
            return self.const(m, o[1], o[2])
        try:
            while True:
                code = fn.blocks[blk]
                i = 0
                ph = []
                while code[i].op == "phi":
                    for o, b in code[i].a:
                        if b == prev:
                            ph.append((code[i].res, val(o)))
                            break
                    i += 1
                regs.update(ph)
                nxt = None
                for ins in code[i:]:
                    self.steps += 1
                    if self.steps > 50_000_000:
                        raise Fault("does not end")
                    op, a = ins.op, ins.a
                    if op == "br":
                        nxt = a[0] if len(a) == 1 else (a[1] if val(a[0]) else a[2])
                        break
                    if op == "switch":
                        v = val(a[0])
                        w = m.bits(ins.t)
                        nxt = a[1]
                        for k, l in a[2]:
                            if k & mask(w) == v:
                                nxt = l
                                break
                        break
                    if op == "ret":
                        return val(a[0]) if a else None
                    if op == "unreachable":
                        raise Fault("unreachable code reached")
                    if op == "store":
                        self.do_store(m, R(ins.t), val(a[0]), val(a[1]))
                        continue
                    if op == "call":
                        r = self.do_call(m, regs, ins, val)
                        if ins.res is not None:
                            regs[ins.res] = r
                        continue
                    regs[ins.res] = self.one(m, ins, val)
                prev, blk = blk, nxt
        finally:
            self.sp = sp0

    def do_store(self, m, t, v, p):
        if isinstance(v, tuple):
            ts = t[1] if t[0] == "st" else [t[2]] * t[1]
            offs = m.fields(t)[0] if t[0] == "st" else [i * m.size(t[2]) for i in range(t[1])]
            for x, o, et in zip(v, offs, ts):
                self.do_store(m, m.resolve(et), x, p + o)
            return
        if t[0] == "vec":
            w = m.bits(t[2])
            for i, x in enumerate(self.lanes(v, t[1], w)):
                self.store(p + i * w // 8, x, w // 8)
            return
        n = (m.bits(t) + 7) // 8
        self.store(p, v, n)

    def do_load(self, m, t, p, align):
        if t[0] in ("st", "arr"):
            ts = t[1] if t[0] == "st" else [t[2]] * t[1]
            offs = m.fields(t)[0] if t[0] == "st" else [i * m.size(t[2]) for i in range(t[1])]
            return tuple(self.do_load(m, m.resolve(et), p + o, 1) for et, o in zip(ts, offs))
        n = (m.bits(t) + 7) // 8
        self.trace(p, n, align, False)
        if t[0] == "vec":
            w = m.bits(t[2])
            return self.join([self.load(p + i * w // 8, w // 8) for i in range(t[1])], w)
        return self.load(p, n) & mask(m.bits(t))

    def one(self, m, ins, val):
        op, a = ins.op, ins.a
        t = m.resolve(ins.t) if ins.t is not None else None
        if op in ir.P.BIN:
            x, y = val(a[0]), val(a[1])
            if t[0] == "vec":
                w = m.bits(t[2])
                return self.join([self.bin(op, p, q, w) for p, q in
                                  zip(self.lanes(x, t[1], w), self.lanes(y, t[1], w))], w)
            w = m.bits(t)
            if ins.x and "nsw" in ins.x:
                p, q = sgn(x, w), sgn(y, w)
                r = {"add": p + q, "sub": p - q, "mul": p * q}.get(op)
                if r is not None and not -(1 << (w - 1)) <= r < 1 << (w - 1):
                    self.msgs.append("signed overflow")
            return self.bin(op, x, y, w)
        if op in ir.P.CAST:
            f = m.resolve(ins.x)
            v = val(a[0])
            if op in ("zext", "sext", "trunc") and t[0] == "vec":
                fw, w = m.bits(f[2]), m.bits(t[2])
                return self.join([self.cast(op, x, fw, w) for x in self.lanes(v, t[1], fw)], w)
            return self.cast(op, v, m.bits(f), m.bits(t))
        if op == "icmp":
            x, y = val(a[0]), val(a[1])
            if t[0] == "vec":
                w = m.bits(t[2])
                return self.join([self.cmp(ins.x, p, q, w) for p, q in
                                  zip(self.lanes(x, t[1], w), self.lanes(y, t[1], w))], 1)
            return self.cmp(ins.x, x, y, m.bits(t))
        if op == "select":
            ct = m.resolve(ins.x)
            c = val(a[0])
            if ct[0] == "vec":
                w = m.bits(t[2])
                return self.join([p if (c >> i) & 1 else q for i, (p, q) in
                                  enumerate(zip(self.lanes(val(a[1]), t[1], w),
                                                self.lanes(val(a[2]), t[1], w)))], w)
            return val(a[1]) if c else val(a[2])
        if op == "load":
            return self.do_load(m, t, val(a[0]), ins.x or 1)
        if op == "alloca":
            n = m.size(t) * (val(a[0][1]) if a[0] is not None else 1)
            al = ins.x or m.align(t)
            self.sp = (self.sp - n) & ~(al - 1) & self.m
            for i in range(n):
                self.mem.pop(self.sp + i, None)
            return self.sp
        if op == "gep":
            return self.gep(m, ins.t, val(a[0]), [(x, val(o)) for x, o in a[1]])
        if op == "extractelement":
            return self.lanes(val(a[0]), t[1], m.bits(t[2]))[val(a[1])]
        if op == "insertelement":
            w = m.bits(t[2])
            xs = self.lanes(val(a[0]), t[1], w)
            xs[val(a[2])] = val(a[1])
            return self.join(xs, w)
        if op == "shufflevector":
            w = m.bits(t[2])
            xs = self.lanes(val(a[0]), t[1], w) + self.lanes(val(a[1]), t[1], w)
            mt = m.resolve(ins.x)
            ix = [0] * mt[1] if a[2][0] == "zero" else \
                [0 if ec[0] in ("undef", "poison") else ec[2] for _, ec in a[2][2]]
            return self.join([xs[i] for i in ix], w)
        if op == "extractvalue":
            v = val(a[0])
            for i in a[1]:
                v = v[i]
            return v
        if op == "insertvalue":
            v = list(val(a[0]))
            v[a[2][0]] = val(a[1])
            return tuple(v)
        if op == "freeze":
            return val(a[0])
        raise sx.Unsupported(op)

    def do_call(self, m, regs, ins, val):
        callee, args = ins.a
        if callee[0] == "asm":
            if self.cpuid is None or "cpuid" not in callee[1]:
                raise sx.Unsupported("inline asm")
            return self.cpuid(*[val(o) for _, o, _ in args])
        if callee[0] == "f" and callee[1].startswith("llvm."):
            return self.intrin(m, callee[1][5:], ins, args, val)
        av = [val(o) for _, o, _ in args]
        if callee[0] == "f":
            return self.call(m, callee[1], av)
        p = regs[callee[1]] if callee[0] == "r" else self.const(m, ir.PTR, callee[2])
        if p not in self.fnat:
            raise Fault("call of %#x" % p)
        return self.call(*self.fnat[p], av)

    def intrin(self, m, b, ins, args, val):
        if b.startswith(("lifetime", "dbg", "prefetch", "assume", "experimental.noalias",
                         "donothing", "x86.avx.vzero", "x86.mmx.emms", "invariant.")):
            return None
        a = [val(o) for _, o, _ in args]
        if b.startswith("expect"):
            return a[0]
        t = m.resolve(ins.t)
        w = m.bits(t) if t[0] not in ("st", "void") else 0
        if b.startswith("bswap"):
            return int.from_bytes(a[0].to_bytes(w // 8, "little"), "big")
        if b.startswith(("memcpy", "memmove")):
            return self.lib("memcpy", a)
        if b.startswith("memset"):
            return self.lib("memset", a)
        if b.startswith(("fshl", "fshr")):
            def f(x, y, s):
                s %= lw
                v = x << lw | y
                return (v << s >> lw if b[3] == "l" else v >> s) & mask(lw)
            if t[0] == "vec":
                lw = m.bits(t[2])
                return self.join([f(*xs) for xs in zip(*[self.lanes(x, t[1], lw) for x in a])], lw)
            lw = w
            return f(*a)
        if b.startswith("umin"):
            return min(a[0], a[1])
        if b.startswith("umax"):
            return max(a[0], a[1])
        if b.startswith("x86.aesni.aesenc") and "last" not in b:
            return aes(a[0], a[1], False)
        if b.startswith("x86.aesni.aesdec") and "last" not in b:
            return aes(a[0], a[1], True)
        if b.startswith("is.constant"):
            return 0
        if b.startswith("x86.addcarry"):
            k = 64 if "64" in b else 32
            s = a[1] + a[2] + (1 if a[0] else 0)
            return (s >> k, s & mask(k))
        if b.startswith("uadd.with.overflow"):
            k = m.bits(t[1][0])
            s = a[0] + a[1]
            return (s & mask(k), s >> k)
        if "with.overflow" in b[:20]:
            k = m.bits(t[1][0])
            sg = (lambda v: v - (1 << k) if v >> (k - 1) else v) if b[0] == "s" else (lambda v: v)
            x, y = sg(a[0]), sg(a[1])
            s = {"a": x + y, "s": x - y, "m": x * y}[b[1]]
            return (s & mask(k), int(sg(s & mask(k)) != s))
        if b.startswith(("smin", "smax")) and t[0] != "vec":
            sg = lambda v: v - (1 << w) if v >> (w - 1) else v
            return (min if b[2] == "i" else max)(a[0], a[1], key=sg)
        if b.startswith("abs.") and t[0] != "vec":
            return -a[0] & mask(w) if a[0] >> (w - 1) else a[0]
        if b.startswith("ctpop."):
            return bin(a[0]).count("1")
        if b.startswith("ctlz."):
            return w - a[0].bit_length()
        if b.startswith("cttz."):
            return w if a[0] == 0 else (a[0] & -a[0]).bit_length() - 1
        if b.startswith(("trap", "ubsantrap")):
            raise Fault("trap")
        raise sx.Unsupported("intrinsic " + b)


# ------------------------------------------------------------ scenarios

def rnd(s):
    while True:
        s = (s + 0x9E3779B97F4A7C15) & mask(64)
        z = s
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & mask(64)
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & mask(64)
        yield (z ^ (z >> 31)) & 255


def runner(prog, lines, fill=0xA5, say=lambda s: None):
    """-> (violated, ['%016x %016x' results])"""
    from . import spec, bv
    from .bv import const
    from .checks.common import AES
    M = Machine(prog, fill)
    B, C, S = {}, {}, {}
    res = []
    bad = []
    ref = True
    last = []
    rng = None

    def csize():
        for m in prog.modules:
            for n, t in m.types.items():
                if "t1ha_context" in n:
                    return m.size(("named", n))
        return 96

    def do(fn, args, line):
        M.tracing = True
        M.msgs = []
        M.sp = M.sp
        try:
            r = M.call(None, fn, args)
        except Fault as e:
            bad.append("%s: %s" % (e, line))
            raise
        finally:
            M.tracing = False
        for x in M.msgs[:1]:
            bad.append("%s: %s" % (x, line))
        return r

    def bytes_of(p, n):
        return bytes(M.mem.get(p + i, M.fill) for i in range(n))

    try:
        for line in lines:
            x = line.split()
            if not x or x[0][0] == "#":
                continue
            op = x[0]
            if op == "buf":
                i, n, low, b, a = map(int, x[1:6])
                seed = int(x[6], 16)
                if n > 1 << 22:
                    raise sx.Unsupported("too long for the interpreter")
                base = M.alloc(n + a * PG + b * PG + low, 0)
                pages = (low + max(n, 1) - 1) // PG + 1
                g = rnd(seed)
                for j in range((pages + a + b) * PG):
                    M.mem[base + j] = next(g) if seed else 0
                for j in range(pages + a + b):
                    M.rw[base // PG + j] = "rw"
                for j in range(pages + a + b, pages + a + b + 3):
                    M.rw.pop(base // PG + j, None)
                M.next = base + (pages + a + b + 3) * PG
                B[i] = (base + b * PG + low, n, base, base + (pages + a + b) * PG)
            elif op == "set":
                p, n, lo, hi = B[int(x[1])]
                for j, v in enumerate(bytes.fromhex(x[3])):
                    q = p + int(x[2]) + j
                    if lo <= q < hi:
                        M.mem[q] = v
            elif op == "range":
                p, n, lo, hi = B[int(x[1])]
                M.range = (lo, hi, p, p + n)
            elif op == "align":
                M.align = True
            elif op == "noref":
                ref = False
            elif op in ("snap", "ac", "alarm", "dirty"):
                pass
            elif op == "freeze":
                for pg in range(B[int(x[1])][2] // PG, B[int(x[1])][3] // PG):
                    M.rw[pg] = "r"
            elif op == "hash":
                fn, n, seed = x[1], int(x[3]), int(x[4], 16)
                p = 0 if int(x[2]) < 0 else B[int(x[2])][0]
                e = M.alloc(24)
                M.mem.update({e + j: 0x11 for j in range(24)})
                args = [p, n, seed]
                wide = fn == "t1ha2_atonce128"
                if wide:
                    args = [e + 8] + args
                r = do(fn, args, line)
                v = (r, M.load(e + 8, 8) if wide else 0)
                res.append("%016x %016x" % v)
                say("ret " + res[-1])
                last = (last + [v])[-2:]
                if ref:
                    h = spec.HASHES[fn]
                    got = h.value(spec.Mem(M.w, data=bytes_of(p, n)), n, const(n, M.w),
                                  const(seed, 64))
                    want = tuple(g.k for g in got)
                    if v[:len(want)] != want:
                        bad.append("value: %s expected %s" % (line, ["%016x" % t for t in want]))
            elif op == "ctx":
                C[int(x[1])] = M.alloc(4096) + 1024 + int(x[2])
                g = rnd(int(x[3], 16))
                for j in range(-64, 192):
                    M.mem[C[int(x[1])] + j] = next(g)
            elif op == "fillctx":
                for j, v in enumerate(bytes.fromhex(x[2])[:csize()]):
                    M.mem[C[int(x[1])] + j] = v
            elif op == "init":
                sx_, sy = int(x[2], 16), int(x[3], 16)
                do("t1ha2_init", [C[int(x[1])], sx_, sy], line)
                S[int(x[1])] = [sx_, sy, b""]
            elif op == "update":
                c, b, off, n, times = map(int, x[1:6])
                p = 0 if b < 0 else B[b][0] + off
                if n * times > 1 << 22:
                    raise sx.Unsupported("too long for the interpreter")
                for _ in range(times):
                    do("t1ha2_update", [C[c], p, n], line)
                    S[c][2] += bytes_of(p, n)
            elif op == "copy":
                for j in range(csize()):
                    M.mem[C[int(x[2])] + j] = M.mem.get(C[int(x[1])] + j, M.fill)
                S[int(x[2])] = list(S[int(x[1])])
            elif op == "scrub":
                for j in range(csize()):
                    M.mem[C[int(x[1])] + j] = 0xA5
            elif op == "final":
                c, wide = int(x[1]), int(x[2])
                e = M.alloc(24)
                M.mem.update({e + j: 0x11 for j in range(24)})
                r = do("t1ha2_final", [C[c], e + 8 if wide else 0], line)
                v = (r, M.load(e + 8, 8) if wide else 0)
                res.append("%016x %016x" % v)
                say("ret " + res[-1])
                last = (last + [v])[-2:]
                if ref:
                    st = spec.Stream(const(S[c][0], 64), const(S[c][1], 64))
                    want = [g.k for g in st.absorb([const(t, 8) for t in S[c][2]]).final(bool(wide))]
                    if list(v[:len(want)]) != want:
                        bad.append("value: %s expected %s" % (line, ["%016x" % t for t in want]))
            elif op == "selfcheck":
                r = M.call(None, x[1], [])
                res.append(str(r if r < 1 << 31 else r - (1 << 32)))
                say("ret " + res[-1])
            elif op == "same":
                if last[0] != last[1]:
                    bad.append("two calls that must agree differ")
            elif op == "differ":
                if last[0] == last[1]:
                    bad.append("two calls that must differ agree")
            elif op == "ctxdiffer":
                if bytes_of(C[0], 32) == bytes_of(C[1], 32):
                    bad.append("contexts agree")
            else:
                raise sx.Unsupported("scenario line " + line)
    except Fault:
        pass
    return bad, res


def selfcheck(prog, d):
    """a self-check run with stand-ins for the hashes and the CPU -> complaints"""
    from . import stubs
    bad = []
    vals = d["cpu"]

    def reg(leaf, sub, r):
        if leaf == 0 and r == "a":
            return vals.get(stubs.MAX, 0)
        return vals.get("cpuid_%x_%x_%s" % (leaf, sub, r), 0)
    M = Machine(prog, cpuid=lambda leaf, sub=0: [reg(leaf, sub, r) for r in "abcd"])
    M.hooks["__get_cpuid_max"] = lambda lev, sig: reg(lev, 0, "a")
    wrong = {(n, i): v for n, i, v in d["wrong"]}
    hist = []

    def value(name, data, seed):
        if name in d["banned"]:
            bad.append("runs %s on a CPU without it" % name)
        i = stubs.WHICH.get((data, seed))
        if i is None:
            r = spec.hash_concrete(name, data, seed, w=M.w)
            return r[0], r[-1]
        lo, hi = stubs.ref(name, i, M.w)
        return wrong.get((name, i), lo), hi

    def by(p, n):
        return bytes(M.rd(p, n)) if n else b""
    for n in stubs.PORT + stubs.AES:
        M.hooks[n] = lambda p, l, s, n=n: value(n, by(p, l), s)[0]

    def wide(x, p, l, s):
        lo, hi = value("t1ha2_atonce128", by(p, l), s)
        M.store(x, hi, 8)
        return lo

    def init(c, a, b):
        hist.append((a, b, b""))
        M.store(c, len(hist) - 1, 8)

    def update(c, p, l):
        a, b, h = hist[M.load(c, 8)]
        hist.append((a, b, h + by(p, l)))
        M.store(c, len(hist) - 1, 8)

    def final(c, x):
        a, b, h = hist[M.load(c, 8)]
        n = "stream128" if x else "stream"
        lo, hi = value(n, h, a) if a == b else (spec.hash_concrete(n, h, a, b) * 2)[:2]
        if x:
            M.store(x, hi, 8)
        return lo
    M.hooks.update({"t1ha2_atonce128": wide, "t1ha2_init": init, "t1ha2_update": update,
                    "t1ha2_final": final})
    r = M.call(None, d["fn"], [])
    print("%s() returns %d, expected %s" % (d["fn"], r, "zero" if d["want_zero"] else "nonzero"))
    if (r == 0) != d["want_zero"]:
        bad.append("verdict of the self-check")
    return bad


def dispatch(prog, d):
    """t1ha0 on a given CPU, every hash replaced by its own value -> complaints"""
    from . import stubs
    from .checks import dispatch as dis
    vals = d["cpu"]

    def reg(leaf, sub, r):
        if leaf == 0 and r == "a":
            return vals.get(stubs.MAX, 0)
        return vals.get("cpuid_%x_%x_%s" % (leaf, sub, r), 0)
    M = Machine(prog, cpuid=lambda leaf, sub=0: [reg(leaf, sub, r) for r in "abcd"])
    M.hooks["__get_cpuid_max"] = lambda lev, sig: reg(lev, 0, "a")
    names = [x for x in stubs.PORT + stubs.AES if x != "t1ha2_atonce128"]
    for i, x in enumerate(names):
        M.hooks[x] = lambda p, n, s, i=i: (i + 1) << 56 ^ s ^ n << 20 ^ p
    for m in prog.modules:
        g = m.globals.get("llvm.global_ctors")
        for n in dis.ctor_names(m, g) if g is not None else ():
            M.call(m, n, [])
    bad = []
    for p, n, s in ((0x1230, 0, 0), (0x4560, 77, 0x123456789), (0x7001, 200, (1 << 55) - 1)):
        got = M.call(None, d["fn"], [p, n, s])
        want = (names.index(d["want"]) + 1) << 56 ^ s ^ n << 20 ^ p
        print("%s(%#x, %d, %#x): %#x, %s gives %#x" % (d["fn"], p, n, s, got, d["want"], want))
        if got != want:
            bad.append("wrong variant")
    return bad


def cfg_of(d):
    return build.Cfg(d["target"], U=d["U"], O=d["O"], asan=d["asan"], debug=d["debug"],
                     gcc=d["gcc"], no128=d["no128"], ubsan=d["ubsan"], defs=tuple(d["defs"]))


def load(cfg, extra=()):
    p = build.build([cfg], extra_srcs=extra)[cfg.name]
    if isinstance(p, build.CompileError):
        print(p)
        sys.exit(1 if "compile" in sys.argv else 2)
    return p


def main(path):
    with open(path) as f:
        d = json.load(f)
    cfg = cfg_of(d["cfg"])
    if d["what"] == "compile":
        r = build.build([cfg])[cfg.name]
        if isinstance(r, build.CompileError):
            print("does not compile: %s" % r)
            return 1
        return 0
    if d["what"] in ("selfcheck", "dispatch"):
        from .checks import dispatch as dis
        f = selfcheck if d["what"] == "selfcheck" else dispatch
        try:
            bad = f(load(cfg, [dis.WRAP]), d)
        except Fault as e:
            bad = [str(e)]
        for b in bad:
            print("VIOLATED " + b)
        return 1 if bad else 0
    bad, res = runner(load(cfg), d["lines"], d.get("fill", 0xA5), say=print)
    for b in bad:
        print("VIOLATED " + b)
    if bad:
        return 1
    for o in d.get("others", []):
        o = cfg_of(o)
        bad2, res2 = runner(load(o), d["lines"], d.get("fill", 0xA5))
        if res != res2:
            print("VIOLATED %s: %s\n%s: %s" % (cfg.name, res, o.name, res2))
            return 1
    if "fill2" in d:
        bad2, res2 = runner(load(cfg), d["lines"], d["fill2"])
        if res != res2:
            print("VIOLATED depends on uninitialised memory: %s %s" % (res, res2))
            return 1
    return 0


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    sys.exit(main(sys.argv[1]))
