"""Independent statement of the t1ha functions over bv terms (constants give
concrete values).  Written from the published algorithm, validated against the
81-entry reference tables kept in vectors.json; it never looks at /repo.

A hash is given as a block machine:
   init(lenn, seed...)      -> (state, offset of the first block)
   blocks(n)                number of full blocks consumed by the loop for length n
   step(state, data, off)   -> state after one block
   finish(state, data, off, rest, looped) -> value(s); `off` is where the rest starts
"""
from . import bv
from .bv import const, add, sub, xor, and_, or_, mul, mulc, ext, zext, concat, rotr, not_, umulh

P = [0xEC99BF0D8372CAAB, 0x82434FE90EDCEF39, 0xD4F06DB99D67BE4B, 0xBD9CACC22C6E9571,
     0x9C06FAF4D023E3AB, 0xC060724A8424F345, 0xCB5AF53AE3AAAC31]
P32 = [0x92D78269, 0xCA9B4735, 0xA4ABA1C3, 0xF6499843, 0x86F0FD61, 0xCA2DA6FB, 0xC4BB3575]


class Mem:
    """the message: symbolic array, or given bytes"""

    def __init__(self, w, arr="M", data=None):
        self.w, self.arr, self.data = w, arr, data

    def byte(self, off, i=0):
        if self.data is not None:
            o = (off.k if isinstance(off, bv.Node) else off) + i
            return const(self.data[o], 8)
        if isinstance(off, bv.Node):
            return bv.sel(self.arr, add(off, const(i, self.w)))
        return bv.sel(self.arr, const(off + i, self.w))

    def le(self, off, i, n, w=None):
        v = concat(*[self.byte(off, i + j) for j in reversed(range(n))])
        return zext(v, w) if w else v

    def be(self, off, i, n, w=None):
        v = concat(*[self.byte(off, i + j) for j in range(n)])
        return zext(v, w) if w else v

    def get(self, big, off, i, n, w=None):
        return (self.be if big else self.le)(off, i, n, w)


class NodeMem:
    """a message given as a list of byte nodes"""

    def __init__(self, bytes_):
        self.b = bytes_

    def byte(self, off, i=0):
        return self.b[(off.k if isinstance(off, bv.Node) else off) + i]

    le, be, get = Mem.le, Mem.be, Mem.get


def p(k):
    return const(P[k], 64)


def mulp(k, x):
    return mulc(x, P[k])


def hilo(v, k):
    return umulh(v, p(k)), mulp(k, v)


def mux64(v, k):
    h, l = hilo(v, k)
    return xor(l, h)


def mix64(v, k):
    t = mulp(k, v)
    return xor(t, rotr(t, 41))


def mixup(x, y, v, k):
    """(x, y) -> (x ^ lo(p*(y+v)), y + hi(p*(y+v)))"""
    h, l = hilo(add(y, v), k)
    return xor(x, l), add(y, h)


def final64(a, b):
    x = mulp(0, add(a, rotr(b, 41)))
    y = mulp(6, add(rotr(a, 23), b))
    return mux64(xor(x, y), 5)


def final128(a, b, c, d):
    a, b = mixup(a, b, xor(rotr(c, 41), d), 0)
    b, c = mixup(b, c, xor(rotr(d, 23), a), 6)
    c, d = mixup(c, d, xor(rotr(a, 19), b), 5)
    d, a = mixup(d, a, xor(rotr(b, 31), c), 4)
    return xor(a, b), add(c, d)


def tail_words(m, big, off, n, size):
    """the 1..4 words of a tail, the last one partial"""
    out = []
    k = 0
    w = size * 8
    while n - k > size:
        out.append(m.get(big, off, k, size))
        k += size
    out.append(m.get(big, off, k, n - k, w) if n - k < size else m.get(big, off, k, size))
    return out


def mix_cd(x, y):
    """(x = seed, y = length) or two stream seeds"""
    return add(rotr(y, 23), not_(x)), add(not_(y), rotr(x, 19))


def t2_step(s, m, off, i=0):
    a, b, c, d = s
    w0, w1, w2, w3 = [m.le(off, i + 8 * k, 8) for k in range(4)]
    d02 = add(w0, rotr(add(w2, d), 56))
    c13 = add(w1, rotr(add(w3, c), 19))
    d2 = xor(d, add(b, rotr(w1, 38)))
    c2 = xor(c, add(a, rotr(w0, 57)))
    b2 = xor(b, mulp(6, add(c13, w2)))
    a2 = xor(a, mulp(5, add(d02, w3)))
    return a2, b2, c2, d2


def t2_squash(a, b, c, d):
    return (xor(a, mulp(6, add(c, rotr(d, 23)))),
            xor(b, mulp(5, add(rotr(c, 19), d))))


def t2_tail_ab(a, b, m, off, n):
    ws = tail_words(m, False, off, n, 8) if n else []
    if len(ws) > 3:
        a, b = mixup(a, b, ws[-4], 4)
    if len(ws) > 2:
        b, a = mixup(b, a, ws[-3], 3)
    if len(ws) > 1:
        a, b = mixup(a, b, ws[-2], 2)
    if ws:
        b, a = mixup(b, a, ws[-1], 1)
    return final64(a, b)


def t2_tail_abcd(a, b, c, d, m, off, n):
    ws = tail_words(m, False, off, n, 8) if n else []
    if len(ws) > 3:
        a, d = mixup(a, d, ws[-4], 4)
    if len(ws) > 2:
        b, a = mixup(b, a, ws[-3], 3)
    if len(ws) > 1:
        c, b = mixup(c, b, ws[-2], 2)
    if ws:
        d, c = mixup(d, c, ws[-1], 1)
    return final128(a, b, c, d)


class Hash:
    L = 32
    limit = 32          # longer messages go through the block loop
    seeds = 1
    prefix = 0

    def blocks(self, n):
        return n // self.L if n > self.limit else 0

    def value(self, m, n, lenn, *seed):
        """whole function for a concrete length"""
        q = self.blocks(n)
        s, off = self.init(m, lenn, n > self.limit, n % self.L if q else n, *seed)
        for _ in range(q):
            s = self.step(s, m, off)
            off += self.L
        return self.finish(s, m, off, n - off, n > self.limit)


class T1ha2(Hash):
    name = "t1ha2_atonce"
    wide = False

    def init(self, m, lenn, loop, rest, seed):
        ln = zext(lenn, 64)
        a, b = seed, ln
        if loop or self.wide:
            c, d = mix_cd(seed, ln)
            return (a, b, c, d), 0
        return (a, b), 0

    def step(self, s, m, off):
        return t2_step(s, m, off)

    def finish(self, s, m, off, n, loop):
        a, b = s[0], s[1]
        if loop:
            a, b = t2_squash(*s)
        return (t2_tail_ab(a, b, m, off, n),)


class T1ha2x(T1ha2):
    name = "t1ha2_atonce128"
    wide = True

    def finish(self, s, m, off, n, loop):
        return t2_tail_abcd(*s, m, off, n)


class T1ha1(Hash):
    def __init__(self, big):
        self.big = big
        self.name = "t1ha1_be" if big else "t1ha1_le"

    def init(self, m, lenn, loop, rest, seed):
        ln = zext(lenn, 64)
        if loop:
            return (seed, ln, add(rotr(ln, 17), seed), xor(ln, rotr(seed, 17))), 0
        return (seed, ln), 0

    def step(self, s, m, off):
        a, b, c, d = s
        w0, w1, w2, w3 = [m.get(self.big, off, 8 * k, 8) for k in range(4)]
        d02 = xor(w0, rotr(add(w2, d), 17))
        c13 = xor(w1, rotr(add(w3, c), 17))
        d2 = sub(d, xor(b, rotr(w1, 31)))
        c2 = add(c, xor(a, rotr(w0, 41)))
        b2 = xor(b, mulp(0, add(c13, w2)))
        a2 = xor(a, mulp(1, add(d02, w3)))
        return a2, b2, c2, d2

    def finish(self, s, m, off, n, loop):
        if loop:
            a, b, c, d = s
            a = xor(a, mulp(6, add(rotr(c, 17), d)))
            b = xor(b, mulp(5, add(c, rotr(d, 17))))
        else:
            a, b = s
        ws = tail_words(m, self.big, off, n, 8) if n else []
        if len(ws) > 3:
            b = add(b, mux64(ws[-4], 4))
        if len(ws) > 2:
            a = add(a, mux64(ws[-3], 3))
        if len(ws) > 1:
            b = add(b, mux64(ws[-2], 2))
        if ws:
            a = add(a, mux64(ws[-1], 1))
        return (add(mux64(rotr(add(a, b), 17), 4), mix64(xor(a, b), 0)),)


def mixup32(x, y, v, k):
    l = mul(zext(add(y, v), 64), const(P32[k], 64))
    return xor(x, ext(l, 31, 0)), add(y, ext(l, 63, 32))


class T1ha0(Hash):
    L = 16
    limit = 16

    def __init__(self, big):
        self.big = big
        self.name = "t1ha0_32be" if big else "t1ha0_32le"

    def init(self, m, lenn, loop, rest, seed):
        ln = ext(lenn, 31, 0)
        a = add(rotr(ln, 17), ext(seed, 31, 0))
        b = xor(ln, ext(seed, 63, 32))
        if loop:
            return (a, b, not_(a), rotr(b, 5)), 0
        return (a, b), 0

    def step(self, s, m, off):
        a, b, c, d = s
        w0, w1, w2, w3 = [m.get(self.big, off, 4 * k, 4) for k in range(4)]
        d13 = add(w1, rotr(add(w3, d), 17))
        c02 = xor(w0, rotr(add(w2, c), 11))
        d2 = xor(d, rotr(add(a, w0), 3))
        c2 = xor(c, rotr(add(b, w1), 7))
        b2 = mulc(add(c02, w3), P32[1])
        a2 = mulc(xor(d13, w2), P32[0])
        return a2, b2, c2, d2

    def finish(self, s, m, off, n, loop):
        if loop:
            a, b, c, d = s
            c = add(c, a)
            d = add(d, b)
            a = xor(a, mulc(add(rotr(c, 16), d), P32[6]))
            b = xor(b, mulc(add(c, rotr(d, 16)), P32[5]))
        else:
            a, b = s
        ws = tail_words(m, self.big, off, n, 4) if n else []
        if len(ws) > 3:
            a, b = mixup32(a, b, ws[-4], 4)
        if len(ws) > 2:
            b, a = mixup32(b, a, ws[-3], 3)
        if len(ws) > 1:
            a, b = mixup32(a, b, ws[-2], 2)
        if ws:
            b, a = mixup32(b, a, ws[-1], 1)
        l = concat(a, xor(b, rotr(a, 13)))
        l = mulp(0, l)
        l = xor(l, zext(ext(l, 63, 41), 64))
        l = mulp(4, l)
        l = xor(l, zext(ext(l, 63, 47), 64))
        return (mulp(6, l),)


# ------------------------------------------------------------ AES variants

def add2x64(x, y):
    return concat(add(ext(x, 127, 64), ext(y, 127, 64)), add(ext(x, 63, 0), ext(y, 63, 0)))


def sub2x64(x, y):
    return concat(sub(ext(x, 127, 64), ext(y, 127, 64)), sub(ext(x, 63, 0), ext(y, 63, 0)))


enc, dec = bv.aesenc, bv.aesdec


class AesBase(Hash):
    L = 128
    limit = 32

    def pair(self, x, y, m, off, i):
        v0y = add2x64(y, m.le(off, i, 16))
        v1x = sub2x64(x, m.le(off, i + 16, 16))
        return dec(x, v0y), dec(y, v1x)

    def last(self, x, y, m, off, k, n):
        x = add2x64(dec(x, enc(y, x)), y)
        return (t2_tail_ab(ext(x, 63, 0), ext(x, 127, 64), _Shift(m, k), off, n - k),)


class _Shift:
    """message seen from k bytes further on"""

    def __init__(self, m, k):
        self.m, self.k = m, k

    def byte(self, off, i=0):
        return self.m.byte(off, i + self.k)

    le, be, get = Mem.le, Mem.be, Mem.get


class AesA(AesBase):
    def __init__(self, name="t1ha0_ia32aes_noavx"):
        self.name = name

    def init(self, m, lenn, loop, rest, seed):
        ln = zext(lenn, 64)
        if not loop:
            return (seed, ln), 0
        x = concat(seed, ln)
        return (x, enc(x, concat(p(5), p(6)))), 0

    def step(self, s, m, off):
        x, y = s
        v = [m.le(off, 16 * k, 16) for k in range(8)]
        v0y = enc(v[0], y)
        v2x6 = enc(v[2], xor(x, v[6]))
        v4567 = xor(enc(v[4], v[5]), add2x64(v[6], v[7]))
        v0y71 = dec(sub2x64(v[7], v0y), v[1])
        v2x63 = enc(v2x6, v[3])
        return (enc(v4567, add2x64(x, y)), enc(v2x63, xor(v0y71, v[5])))

    def finish(self, s, m, off, n, loop):
        if not loop:
            return (t2_tail_ab(s[0], s[1], m, off, n),)
        x, y = s
        k = 0
        for bit in (64, 32):
            if n & bit:
                for _ in range(bit // 32):
                    x, y = self.pair(x, y, m, off, k)
                    k += 32
        if n & 16:
            y = add2x64(x, y)
            x = dec(x, m.le(off, k, 16))
            k += 16
        return self.last(x, y, m, off, k, n)


class AesB(AesBase):
    name = "t1ha0_ia32aes_avx2"

    def blocks(self, n):
        return n // 128 if n > 32 else 0

    def init(self, m, lenn, loop, rest, seed):
        ln = zext(lenn, 64)
        if not loop:
            return (seed, ln), 0
        x = concat(seed, ln)
        y = enc(x, concat(p(0), p(1)))
        off = 0
        if rest & 16:
            x = add2x64(x, m.le(0, 0, 16))
            y = enc(x, y)
            off = 16
        return (x, y, y), off

    def step(self, s, m, off):
        x, y, salt = s
        t = enc(m.le(off, 0, 16), salt)
        for k in range(1, 8):
            t = dec(t, m.le(off, 16 * k, 16))
        salt = add2x64(salt, concat(p(5), p(6)))
        return add2x64(y, x), enc(x, t), salt

    def finish(self, s, m, off, n, loop):
        if not loop:
            return (t2_tail_ab(s[0], s[1], m, off, n),)
        x, y = s[0], s[1]
        k = 0
        while n - k >= 32:
            x, y = self.pair(x, y, m, off, k)
            k += 32
        return self.last(x, y, m, off, k, n)


# ------------------------------------------------------------ streaming

class Stream:
    """t1ha2 streaming as a function of the byte string: state after the full
    blocks, pending bytes, 64-bit total"""

    def __init__(self, seed_x, seed_y):
        c, d = mix_cd(seed_x, seed_y)
        self.s = (seed_x, seed_y, c, d)
        self.pend = []
        self.total = const(0, 64)

    @classmethod
    def at(cls, s, pend, total):
        o = cls.__new__(cls)
        o.s, o.pend, o.total = tuple(s), list(pend), total
        return o

    def absorb(self, bytes_, lenn=None):
        self.total = add(self.total, const(len(bytes_), 64) if lenn is None else zext(lenn, 64))
        self._push(bytes_)
        return self

    def _push(self, bytes_):
        self.pend = self.pend + list(bytes_)
        while len(self.pend) >= 32:
            self.s = t2_step(self.s, NodeMem(self.pend[:32]), 0)
            self.pend = self.pend[32:]

    def final(self, wide):
        bits = xor(bv.shl(self.total, const(3, 64)), const(1 << 63, 64))
        o = Stream.at(self.s, self.pend, self.total)
        o._push([ext(bits, 8 * i + 7, 8 * i) for i in range(8)])
        m, n = NodeMem(o.pend), len(o.pend)
        if not wide:
            a, b = t2_squash(*o.s)
            return (t2_tail_ab(a, b, m, 0, n),)
        return t2_tail_abcd(*o.s, m, 0, n)


HASHES = {h.name: h for h in (T1ha2(), T1ha2x(), T1ha1(False), T1ha1(True), T1ha0(False),
                              T1ha0(True), AesA(), AesA("t1ha0_ia32aes_avx"), AesB())}


# ------------------------------------------------------------ probes

PATTERN = bytes([0, 1, 2, 3, 4, 5, 6, 7, 0xFF, 0x7F, 0x3F, 0x1F, 0xF, 8, 16, 32, 64, 0x80, 0xFE,
                 0xFC, 0xF8, 0xF0, 0xE0, 0xC0, 0xFD, 0xFB, 0xF7, 0xEF, 0xDF, 0xBF, 0x55, 0xAA, 11,
                 17, 19, 23, 29, 37, 42, 43]) + b"abcdefghijklmnopqrstuvwx"
assert len(PATTERN) == 64
M64 = (1 << 64) - 1


def probes():
    """the 81 documented probe inputs (data, seed)"""
    out = [(b"", 0), (b"", M64), (PATTERN, 0)]
    seed = 1
    for i in range(1, 64):
        out.append((PATTERN[:i], seed))
        seed = (seed << 1) & M64
    seed = M64
    for i in range(1, 8):
        seed = (seed << 1) & M64
        out.append((PATTERN[i:], seed))
    lng = bytes(i & 255 for i in range(512))
    for i in range(8):
        out.append((lng[i:i + 128 + i * 17], seed))
    assert len(out) == 81
    return out


def hash_concrete(name, data, *seed, w=64):
    if name in ("stream", "stream128"):
        sx, sy = seed if len(seed) == 2 else (seed[0], seed[0])
        s = Stream(const(sx, 64), const(sy, 64)).absorb([const(b, 8) for b in data])
        return tuple(v.k for v in s.final(name == "stream128"))
    h = HASHES[name]
    r = h.value(Mem(w, data=data), len(data), const(len(data), w),
                *[const(s, 64) for s in seed])
    return tuple(v.k for v in r)
