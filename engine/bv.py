"""Hash-consed bit-vector terms with normalisation, a concrete evaluator and a
translation to z3.  Every rewriting the constructors perform can be recorded
(AUDIT) and certified by z3 as an instance:  raw-operator(args) == result.

Widths are in bits, concat is most significant first.
"""
import itertools

AUDIT = None          # when a list: (kind, w, args, k, result) instances


class Node:
    __slots__ = ("id", "op", "w", "args", "k", "_lin", "_zt", "__weakref__")

    def __repr__(self):
        return pretty(self, 4)


_table = {}
_count = itertools.count()


def _mk(op, w, args=(), k=None):
    key = (op, w, tuple([a.id for a in args]), k)
    n = _table.get(key)
    if n is None:
        n = Node()
        n.id = next(_count)
        n.op = op
        n.w = w
        n.args = tuple(args)
        n.k = k
        n._lin = None
        n._zt = None
        _table[key] = n
    return n


def mask(w):
    return (1 << w) - 1


def const(v, w):
    return _mk("const", w, (), v & ((1 << w) - 1))


def sym(name, w):
    return _mk("sym", w, (), name)


_fresh = itertools.count()


def fresh(prefix, w):
    return _mk("sym", w, (), "%s!%d" % (prefix, next(_fresh)))


def sel(arr, off):
    """byte of the symbolic memory `arr` at offset node `off`"""
    return _mk("sel", 8, (off,), arr)


def uf(name, w, *args):
    return _mk("uf", w, args, name)


TRUE = const(1, 1)
FALSE = const(0, 1)


def reset():
    """forget all terms (TRUE and FALSE survive)"""
    _table.clear()
    for n in (TRUE, FALSE):
        _table[(n.op, n.w, (), n.k)] = n



def is_const(n):
    return n.op == "const"


def _audit(kind, w, args, k, res):
    if AUDIT is not None:
        AUDIT.append((kind, w, args, k, res))
    return res


# ---------------------------------------------------------------- structure

def parts_of(n):
    return n.args if n.op == "concat" else (n,)


def top_zeros(n):
    z = n._zt
    if z is not None:
        return z
    if n.op == "const":
        z = n.w - n.k.bit_length()
    elif n.op == "concat":
        a = n.args[0]
        z = top_zeros(a)
        if z == a.w and len(n.args) > 1 and a.op == "const":
            z += top_zeros(n.args[1])
    elif n.op in ("xor", "or"):
        z = min(top_zeros(a) for a in n.args)
        if n.k is not None:
            z = min(z, n.w - n.k.bit_length())
    elif n.op == "and":
        z = max(top_zeros(a) for a in n.args)
    elif n.op == "ite":
        z = min(top_zeros(n.args[1]), top_zeros(n.args[2]))
    else:
        z = 0
    n._zt = z
    return z


def concat(*parts):
    """most significant first"""
    out = []
    stack = list(reversed(parts))
    while stack:
        p = stack.pop()
        if p.w == 0:
            continue
        if p.op == "concat":
            stack.extend(reversed(p.args))
            continue
        if out:
            q = out[-1]
            if q.op == "const" and p.op == "const":
                out[-1] = const((q.k << p.w) | p.k, q.w + p.w)
                continue
            # contiguous extracts of one node
            if q.op == "ext":
                x, qh, ql = q.args[0], q.k[0], q.k[1]
                if p.op == "ext" and p.args[0] is x and p.k[0] + 1 == ql:
                    out[-1] = ext(x, qh, p.k[1])
                    continue
        out.append(p)
    if len(out) == 1:
        return out[0]
    w = sum(p.w for p in out)
    return _mk("concat", w, out)


def zext(n, w):
    if n.w == w:
        return n
    assert n.w < w
    return concat(const(0, w - n.w), n)


def sext(n, w):
    if n.w == w:
        return n
    if n.op == "const":
        v = n.k
        if v >> (n.w - 1):
            v |= mask(w) ^ mask(n.w)
        return const(v, w)
    if top_zeros(n) >= 1:
        return zext(n, w)
    s = ext(n, n.w - 1, n.w - 1)
    return concat(*([_repl(s, w - n.w)] + [n]))


def _repl(bit, w):
    # w copies of a bit
    if bit.op == "const":
        return const(mask(w) if bit.k else 0, w)
    if w == 1:
        return bit
    return ite(bit, const(mask(w), w), const(0, w))


def ext(n, hi, lo):
    assert 0 <= lo <= hi < n.w, (n.w, hi, lo)
    if lo == 0 and hi == n.w - 1:
        return n
    op = n.op
    w = hi - lo + 1
    if op == "const":
        return const(n.k >> lo, w)
    if op == "ext":
        b = n.k[1]
        return ext(n.args[0], hi + b, lo + b)
    if op == "concat":
        out = []
        pos = n.w
        for p in n.args:
            ph, pl = pos - 1, pos - p.w
            pos = pl
            if pl > hi:
                continue
            if ph < lo:
                break
            h = min(hi, ph) - pl
            l = max(lo, pl) - pl
            out.append(ext(p, h, l))
        return concat(*out)
    if op == "ite":
        c, a, b = n.args
        if (a.op in ("const", "concat") or b.op in ("const", "concat")):
            return ite(c, ext(a, hi, lo), ext(b, hi, lo))
    if op in ("xor", "and", "or"):
        if n.k is not None or any(a.op in ("concat", "const", "ext") for a in n.args):
            xs = [ext(a, hi, lo) for a in n.args]
            if n.k is not None:
                xs.append(const(n.k >> lo, w))
            return bitop(op, xs)
    if op == "sum":
        r = _ext_sum(n, hi, lo)
        if r is not None:
            return r
    return _mk("ext", w, (n,), (hi, lo))


def _ext_sum(n, hi, lo):
    coeffs, c = n.k
    w = hi - lo + 1
    m = mask(hi + 1)
    if lo == 0:
        new = {}
        dropped = False
        for a, k in zip(n.args, coeffs):
            k2 = k & m
            if k2 == 0:
                dropped = True
            else:
                new[a] = k2
        if dropped:
            d2, c2 = {}, c & m
            for a, k in new.items():
                e = ext(a, hi, 0)
                _lin_add(d2, e, k, w)
            return lin_from(d2, c2, w)
        return None
    # all terms multiples of 2^lo: the low bits come from the constant alone
    lm = mask(lo)
    if all((k & lm) == 0 for k in coeffs):
        d2 = {}
        for a, k in zip(n.args, coeffs):
            e = ext(a, w - 1, 0) if a.w > w else a
            _lin_add(d2, e, (k >> lo) & mask(w), w)
        return lin_from(d2, (c >> lo) & mask(w), w)
    return None


# ---------------------------------------------------------------- linear sums

def linear(n):
    """(dict node->coeff, const) with n == sum mod 2^w"""
    r = n._lin
    if r is not None:
        return r
    op = n.op
    w = n.w
    m = mask(w)
    if op == "const":
        r = ({}, n.k)
    elif op == "sum":
        r = (dict(zip(n.args, n.k[0])), n.k[1])
    elif op == "xor" and len(n.args) == 1 and n.k == m:
        d, c = linear(n.args[0])
        r = ({a: (-k) & m for a, k in d.items()}, (-c - 1) & m)
    elif op == "concat":
        nc = [p for p in n.args if p.op != "const"]
        if len(nc) == 1:
            pos = w
            off = 0
            c = 0
            part = nc[0]
            for p in n.args:
                pos -= p.w
                if p is part:
                    off = pos
                else:
                    c |= p.k << pos
            if off + part.w == w and part.op == "ext" and part.k[1] == 0 \
                    and part.args[0].w == w:
                d, c0 = linear(part.args[0])
                r = ({a: (k << off) & m for a, k in d.items() if (k << off) & m},
                     (c + (c0 << off)) & m)
            else:
                atom = concat(const(0, w - part.w), part)
                if atom is n:
                    r = ({n: 1}, 0)
                else:
                    r = ({atom: 1 << off}, c)
        elif n.args[-1].op == "const" and n.args[-1].k == 0:
            # low zeros become a factor
            z = n.args[-1].w
            r = ({concat(const(0, z), *n.args[:-1]): 1 << z}, 0)
        else:
            r = ({n: 1}, 0)
    else:
        r = ({n: 1}, 0)
    n._lin = r
    return r


def _lin_add(d, node, k, w):
    """d += k*node ; returns const contribution folded under key None"""
    dd, c = linear(node)
    m = mask(w)
    for a, kk in dd.items():
        v = (d.get(a, 0) + kk * k) & m
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    if c:
        d[None] = (d.get(None, 0) + c * k) & m


def lin_from(d, c, w):
    c = (c + d.pop(None, 0)) & mask(w) if None in d else c & mask(w)
    m = mask(w)
    d = {a: k & m for a, k in d.items() if k & m}
    if not d:
        return const(c, w)
    if len(d) == 1:
        (a, k), = d.items()
        if k == 1 and c == 0:
            return a
        if k == m and c == m:
            return _bit_raw("xor", w, [a], m)
    # disjoint bits -> concat
    spans = []
    ok = True
    for a, k in d.items():
        if k & (k - 1):
            ok = False
            break
        s = k.bit_length() - 1
        ew = w - top_zeros(a)
        e = min(w, s + ew)
        if s == 0 and ew == w:
            ok = False
            break
        spans.append((s, e, a))
    if ok:
        spans.sort(key=lambda t: t[0])
        prev = 0
        out = []
        for s, e, a in spans:
            if s < prev or (c >> s) & mask(e - s):
                ok = False
                break
            if s > prev:
                out.append(const(c >> prev, s - prev))
            out.append(ext(a, e - s - 1, 0))
            prev = e
        if ok:
            if prev < w:
                out.append(const(c >> prev, w - prev))
            return concat(*reversed(out))
    items = sorted(d.items(), key=lambda t: t[0].id)
    n = _mk("sum", w, [a for a, _ in items], (tuple([k for _, k in items]), c))
    return n


def _add_halves(a, b):
    """(v << s) + u with u < 2^s, v a sum: no carry, so the halves stay apart
    (a rotation written with + is the rotation written with |)"""
    if a.op != "concat" or b.op == "const" or len(a.args) != 2:
        return None
    hi, lo = a.args
    if lo.op != "const" or lo.k or top_zeros(b) != a.w - lo.w:
        return None
    if hi.op != "ext" or hi.args[0].op != "sum":
        return None
    return concat(hi, ext(b, lo.w - 1, 0))


def add(a, b):
    assert a.w == b.w, (a.w, b.w)
    if a.op == "const" and b.op == "const":
        return const(a.k + b.k, a.w)
    r = _add_halves(a, b) or _add_halves(b, a)
    if r is not None:
        return _audit("add", a.w, (a, b), None, r)
    d = {}
    _lin_add(d, a, 1, a.w)
    _lin_add(d, b, 1, a.w)
    return _audit("add", a.w, (a, b), None, lin_from(d, 0, a.w))


def neg(a):
    return mulc(a, -1)


def sub(a, b):
    assert a.w == b.w
    if a is b:
        return const(0, a.w)
    d = {}
    _lin_add(d, a, 1, a.w)
    _lin_add(d, b, mask(a.w), a.w)
    return _audit("sub", a.w, (a, b), None, lin_from(d, 0, a.w))


def mulc(a, c):
    c &= mask(a.w)
    if a.op == "const":
        return const(a.k * c, a.w)
    if c == 0:
        return const(0, a.w)
    d = {}
    _lin_add(d, a, c, a.w)
    return lin_from(d, 0, a.w)


def mul(a, b):
    assert a.w == b.w
    w = a.w
    if a.op == "const":
        a, b = b, a
    if a.op == "const":
        return const(a.k * b.k, w)
    h = w // 2
    if w >= 64 and w % 2 == 0 and top_zeros(a) >= h and top_zeros(b) >= h:
        # full product of two half-width values
        x, y = ext(a, h - 1, 0), ext(b, h - 1, 0)
        r = concat(umulh(x, y), mul(x, y))
        return _audit("mul", w, (a, b), None, r)
    if b.op == "const":
        return _audit("mul", w, (a, b), None, mulc(a, b.k))
    if a.id > b.id:
        a, b = b, a
    return _mk("mul", w, (a, b))


def umulh(x, y):
    w = x.w
    if x.op == "const" and y.op == "const":
        return const((x.k * y.k) >> w, w)
    if x.op == "const" or (y.op != "const" and x.id > y.id):
        x, y = y, x
    if y.op == "const":
        if y.k <= 1:
            return const(0, w)
        if y.k & (y.k - 1) == 0:
            return lshr(x, const(w - (y.k.bit_length() - 1), w))
    return _mk("umulh", w, (x, y))


# ---------------------------------------------------------------- bit ops

def _bit_raw(op, w, xs, k):
    """xs: list of non-const nodes (may contain same-op nodes), k const or None"""
    full = mask(w)
    flat = []
    ident = 0 if op in ("xor", "or") else full
    c = ident if k is None else k
    for x in xs:
        if x.op == op:
            flat.extend(x.args)
            if x.k is not None:
                c = c ^ x.k if op == "xor" else (c | x.k if op == "or" else c & x.k)
        elif x.op == "const":
            c = c ^ x.k if op == "xor" else (c | x.k if op == "or" else c & x.k)
        else:
            flat.append(x)
    if op == "or" and c == full:
        return const(full, w)
    if op == "and" and c == 0:
        return const(0, w)
    cnt = {}
    for x in flat:
        cnt[x] = cnt.get(x, 0) + 1
    if op == "xor":
        flat = [x for x, n in cnt.items() if n & 1]
    else:
        flat = list(cnt)
        if w == 1 or len(flat) <= 4:
            for x in flat:      # x & ~x
                if x.op == "xor" and len(x.args) == 1 and x.k == full and x.args[0] in cnt:
                    return const(0 if op == "and" else full, w)
    if not flat:
        return const(c, w)
    if len(flat) == 1 and c == ident:
        return flat[0]
    flat.sort(key=lambda t: t.id)
    return _mk(op, w, flat, None if c == ident else c)


def _apply2(op, a, b):
    """bit operation, splitting where one side is constant"""
    w = a.w
    full = mask(w)
    if a.op == "const":
        a, b = b, a
    if a.op == "const":
        v = a.k ^ b.k if op == "xor" else (a.k & b.k if op == "and" else a.k | b.k)
        return const(v, w)
    if b.op == "const":
        k = b.k
        if op == "xor":
            if k == 0:
                return a
            if a.op == "concat" and any(p.op == "const" for p in a.args):
                return _split(op, a, b)
            if k == full:
                if a.op == "sum":
                    d, c = linear(a)
                    return lin_from({x: (-v) & full for x, v in d.items()}, -c - 1, w)
                if w == 1 and a.op == "ite":
                    return ite(a.args[0], _apply2(op, a.args[1], b), _apply2(op, a.args[2], b))
            return _bit_raw(op, w, [a], k)
        # and / or with constant mask: runs
        if op == "and":
            if k == 0:
                return b
            if k == full:
                return a
        else:
            if k == 0:
                return a
            if k == full:
                return b
        out = []
        pos = w
        while pos > 0:
            bit = (k >> (pos - 1)) & 1
            j = pos - 1
            while j > 0 and ((k >> (j - 1)) & 1) == bit:
                j -= 1
            if op == "and":
                out.append(ext(a, pos - 1, j) if bit else const(0, pos - j))
            else:
                out.append(const(mask(pos - j), pos - j) if bit else ext(a, pos - 1, j))
            pos = j
        return concat(*out)
    if a is b:
        return const(0, w) if op == "xor" else a
    if (a.op == "concat" and any(p.op == "const" for p in a.args)) or \
       (b.op == "concat" and any(p.op == "const" for p in b.args)):
        return _split(op, a, b)
    if w == 1 or True:
        if a.op == "ite" and b.op == "ite" and a.args[0] is b.args[0]:
            return ite(a.args[0], _apply2(op, a.args[1], b.args[1]),
                       _apply2(op, a.args[2], b.args[2]))
    return _bit_raw(op, w, [a, b], None)


def _bounds(n, s):
    if n.op == "concat":
        pos = n.w
        for p in n.args:
            if p.op == "const":
                s.add(pos)
                s.add(pos - p.w)
            pos -= p.w


def _split(op, a, b):
    s = {0, a.w}
    _bounds(a, s)
    _bounds(b, s)
    pts = sorted(s, reverse=True)
    out = []
    for h, l in zip(pts, pts[1:]):
        x, y = ext(a, h - 1, l), ext(b, h - 1, l)
        if len(pts) == 2:
            out.append(_bit_raw(op, a.w, [x, y], None))
        else:
            out.append(_apply2(op, x, y))
    return concat(*out)


def bitop(op, xs):
    r = xs[0]
    for x in xs[1:]:
        r = _apply2(op, r, x)
    return r


def xor(a, b):
    return _audit("xor", a.w, (a, b), None, _apply2("xor", a, b))


def and_(a, b):
    return _audit("and", a.w, (a, b), None, _apply2("and", a, b))


def or_(a, b):
    return _audit("or", a.w, (a, b), None, _apply2("or", a, b))


def not_(a):
    return xor(a, const(mask(a.w), a.w))


def conj(xs):
    r = TRUE
    for x in xs:
        r = _apply2("and", r, x)
    return r


def disj(xs):
    r = FALSE
    for x in xs:
        r = _apply2("or", r, x)
    return r


# ---------------------------------------------------------------- shifts

def shl(a, b):
    w = a.w
    if b.op == "const":
        s = b.k
        if s >= w:
            return const(0, w)
        if s == 0:
            return a
        return _audit("shl", w, (a, b), None,
                      concat(ext(a, w - 1 - s, 0), const(0, s)))
    if a.op == "const" and a.k == 0:
        return a
    return _mk("shl", w, (a, b))


def lshr(a, b):
    w = a.w
    if b.op == "const":
        s = b.k
        if s >= w:
            return const(0, w)
        if s == 0:
            return a
        return _audit("lshr", w, (a, b), None,
                      concat(const(0, s), ext(a, w - 1, s)))
    if a.op == "const" and a.k == 0:
        return a
    return _mk("lshr", w, (a, b))


def ashr(a, b):
    w = a.w
    if b.op == "const":
        s = min(b.k, w - 1)
        if s == 0:
            return a
        if a.op == "const":
            v = a.k
            if v >> (w - 1):
                v -= 1 << w
            return const(v >> s, w)
        if top_zeros(a):
            return concat(const(0, s), ext(a, w - 1, s))
        return concat(_repl(ext(a, w - 1, w - 1), s), ext(a, w - 1, s))
    return _mk("ashr", w, (a, b))


def rotr(a, s):
    w = a.w
    s %= w
    if s == 0:
        return a
    return concat(ext(a, s - 1, 0), ext(a, w - 1, s))


# ---------------------------------------------------------------- predicates

def umax(n):
    """an upper bound of the unsigned value"""
    if n.op == "const":
        return n.k
    m = mask(n.w - top_zeros(n))
    if n.op == "sum":
        t = n.k[1]
        for a, k in zip(n.args, n.k[0]):
            t += k * umax(a)
            if t > m:
                return m
        return t
    return m


def _eq_count(a, k):
    """sum == constant where the sum is a small count: no term, or every term"""
    w = a.w
    for coeffs, c, k in ((a.k[0], a.k[1], k),
                         ([(-x) & mask(w) for x in a.k[0]], (-a.k[1]) & mask(w), (-k) & mask(w))):
        t = c
        for x, f in zip(a.args, coeffs):
            t += f * umax(x)
            if t > mask(w):
                break
        else:
            if k > t or k < c:
                return FALSE
            if k == c:
                return conj([eq(x, const(0, w)) for x in a.args])
            if k == t and all(umax(x) == 1 for x in a.args):
                return conj([eq(x, const(1, w)) for x in a.args])
    return None


def eq(a, b):
    assert a.w == b.w
    if a is b:
        return TRUE
    if a.op == "const":
        a, b = b, a
    if a.op == "const":
        return TRUE if a.k == b.k else FALSE
    w = a.w
    if w == 1:
        if b.op == "const":
            return a if b.k else not_(a)
        return not_(xor(a, b))
    r = None
    if b.op == "const":
        if a.op == "concat":
            pos = w
            rest = []
            for p in a.args:
                pos -= p.w
                c = (b.k >> pos) & mask(p.w)
                if p.op == "const":
                    if p.k != c:
                        return _audit("eq", 1, (a, b), None, FALSE)
                else:
                    rest.append((p, const(c, p.w)))
            if len(rest) <= 2 or any(p.w == 1 for p, _ in rest):
                r = conj([eq(p, c) for p, c in rest])
                return _audit("eq", 1, (a, b), None, r)
        elif a.op == "ite":
            c, x, y = a.args
            if x.op == "const" or y.op == "const":
                return ite(c, eq(x, b), eq(y, b))
        elif a.op == "xor" and len(a.args) == 1:
            return eq(a.args[0], const(b.k ^ a.k, w))
        elif a.op == "sum":
            coeffs, c = a.k
            r = _eq_count(a, b.k)
            if r is not None:
                return _audit("eq", 1, (a, b), None, r)
            if len(coeffs) == 1 and c:
                # k*x + c == b
                if coeffs[0] == 1:
                    return eq(a.args[0], const(b.k - c, w))
            elif c:
                return eq(lin_from(dict(linear(a)[0]), 0, w), const(b.k - c, w))
    else:
        if a.op == "sum" or b.op == "sum" or \
                (a.op == "concat" and b.op == "concat"):
            d = {}
            _lin_add(d, a, 1, w)
            _lin_add(d, b, mask(w), w)
            c = d.pop(None, 0)
            if not d:
                return _audit("eq", 1, (a, b), None, TRUE if c == 0 else FALSE)
            if a.op == "concat" and b.op == "concat" and len(a.args) == len(b.args) \
                    and all(x.w == y.w for x, y in zip(a.args, b.args)):
                for x, y in zip(a.args, b.args):
                    if x.op == "const" and y.op == "const" and x.k != y.k:
                        return FALSE
                diff = [(x, y) for x, y in zip(a.args, b.args) if x is not y]
                if len(diff) == 1:
                    return eq(*diff[0])
    if b.op != "const" and a.id > b.id:
        a, b = b, a
    return _mk("eq", 1, (a, b))


def ult(a, b):
    assert a.w == b.w
    if a is b:
        return FALSE
    if a.op == "const" and b.op == "const":
        return TRUE if a.k < b.k else FALSE
    if b.op == "const":
        if b.k == 0:
            return FALSE
        if umax(a) < b.k:
            return TRUE
        if b.k == 1:
            return eq(a, const(0, a.w))
    if a.op == "const":
        if a.k == mask(a.w):
            return FALSE
        if umax(b) <= a.k:
            return FALSE
        if a.k == 0:
            return not_(eq(b, const(0, a.w)))
    z = min(top_zeros(a), top_zeros(b))
    if z and z < a.w:
        return ult(ext(a, a.w - 1 - z, 0), ext(b, a.w - 1 - z, 0))
    return _mk("ult", 1, (a, b))


def ule(a, b):
    return not_(ult(b, a))


def slt(a, b):
    w = a.w
    if a is b:
        return FALSE
    if a.op == "const" and b.op == "const":
        f = lambda v: v - (1 << w) if v >> (w - 1) else v
        return TRUE if f(a.k) < f(b.k) else FALSE
    pos = not umax(a) >> (w - 1)
    if pos and not umax(b) >> (w - 1):
        return ult(a, b)
    if pos and b.op == "const" and b.k >> (w - 1):
        return FALSE
    if a.op == "const" and a.k >> (w - 1) and not umax(b) >> (w - 1):
        return TRUE
    return _mk("slt", 1, (a, b))


def ite(c, a, b):
    assert a.w == b.w
    if c.op == "const":
        return a if c.k else b
    if a is b:
        return a
    if c.op == "xor" and c.k == 1 and len(c.args) == 1:
        return ite(c.args[0], b, a)
    if a.w == 1:
        if a.op == "const" and b.op == "const":
            return c if a.k else not_(c)
        if a.op == "const":
            return or_(c, b) if a.k else and_(not_(c), b)
        if b.op == "const":
            return or_(not_(c), a) if b.k else and_(c, a)
    if a.op == "ite" and a.args[0] is c:
        return ite(c, a.args[1], b)
    if b.op == "ite" and b.args[0] is c:
        return ite(c, a, b.args[2])
    if a.op == "concat" and b.op == "concat" or \
       (a.op == "concat" and b.op == "const") or (a.op == "const" and b.op == "concat"):
        # share equal leading/trailing segments (booleans zero-extended, mostly)
        za, zb = top_zeros(a), top_zeros(b)
        z = min(za, zb)
        if z:
            return concat(const(0, z), ite(c, ext(a, a.w - 1 - z, 0), ext(b, a.w - 1 - z, 0)))
    if (a.op == "sum" or b.op == "sum") and a.w > 8 and umax(a) < 0x10000 and umax(b) < 0x10000:
        # a counter
        d = sub(a, b)
        if d.op == "const" and d.k == 1:
            return add(b, zext(c, a.w))
        if d.op == "const" and d.k == mask(a.w):
            return add(a, zext(not_(c), a.w))
    return _mk("ite", a.w, (c, a, b))


def udiv(a, b):
    if b.op == "const" and b.k:
        if a.op == "const":
            return const(a.k // b.k, a.w)
        if b.k & (b.k - 1) == 0:
            return lshr(a, const(b.k.bit_length() - 1, a.w))
    return _mk("udiv", a.w, (a, b))


def urem(a, b):
    if b.op == "const" and b.k:
        if a.op == "const":
            return const(a.k % b.k, a.w)
        if b.k & (b.k - 1) == 0:
            return and_(a, const(b.k - 1, a.w))
    return _mk("urem", a.w, (a, b))


def bswap(a):
    n = a.w // 8
    return concat(*[ext(a, 8 * i + 7, 8 * i) for i in range(n)])


def fshl(a, b, s):
    w = a.w
    if s.op == "const":
        k = s.k % w
        if k == 0:
            return a
        return concat(ext(a, w - 1 - k, 0), ext(b, w - 1, w - k))
    s2 = urem(s, const(w, w))
    return or_(shl(a, s2), lshr(lshr(b, const(1, w)), sub(const(w - 1, w), s2)))


def fshr(a, b, s):
    w = a.w
    if s.op == "const":
        k = s.k % w
        if k == 0:
            return b
        return concat(ext(a, k - 1, 0), ext(b, w - 1, k))
    s2 = urem(s, const(w, w))
    return or_(lshr(b, s2), shl(shl(a, const(1, w)), sub(const(w - 1, w), s2)))


# ---------------------------------------------------------------- rebuild

def rebuild(n, args):
    """same operator over new args, through the normalising constructors"""
    op = n.op
    if op == "concat":
        return concat(*args)
    if op == "ext":
        return ext(args[0], *n.k)
    if op == "sum":
        d = {}
        for a, k in zip(args, n.k[0]):
            _lin_add(d, a, k, n.w)
        return lin_from(d, n.k[1], n.w)
    if op in ("xor", "and", "or"):
        xs = list(args)
        if n.k is not None:
            xs.append(const(n.k, n.w))
        return bitop(op, xs)
    if op == "mul":
        return mul(*args)
    if op == "umulh":
        return umulh(*args)
    if op == "sel":
        return sel(n.k, args[0])
    if op == "uf":
        return _mk("uf", n.w, args, n.k)
    f = {"shl": shl, "lshr": lshr, "ashr": ashr, "eq": eq, "ult": ult, "slt": slt,
         "ite": ite, "udiv": udiv, "urem": urem}.get(op)
    if f:
        return f(*args)
    return _mk(op, n.w, args, n.k)


def topo(roots):
    """nodes below roots, children first"""
    seen = set()
    out = []
    stack = [(r, False) for r in roots]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        stack.append((n, True))
        for a in n.args:
            if a.id not in seen:
                stack.append((a, False))
    return out


def substitute(roots, smap, fn=None):
    """replace nodes (dict) bottom-up; fn(node)->node or None for computed ones"""
    memo = {}
    for n in topo(roots):
        if n in smap:
            memo[n.id] = smap[n]
            continue
        if fn is not None:
            r = fn(n)
            if r is not None:
                memo[n.id] = r
                continue
        if not n.args:
            memo[n.id] = n
            continue
        na = [memo[a.id] for a in n.args]
        if all(x is y for x, y in zip(na, n.args)):
            memo[n.id] = n
        else:
            memo[n.id] = rebuild(n, na)
    return [memo[r.id] for r in roots]


def leaves(roots):
    return [n for n in topo(roots) if n.op in ("sym", "sel")]


def count(roots):
    return len(topo(roots))


# ---------------------------------------------------------------- evaluation

def _sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


UF_IMPL = {}


def evaluate(roots, env):
    """env(node)->int for sym and sel (sel gets evaluated offset: env(node, off))"""
    memo = {}
    for n in topo(roots):
        op, w = n.op, n.w
        m = (1 << w) - 1
        a = [memo[x.id] for x in n.args]
        if op == "const":
            v = n.k
        elif op == "sym":
            v = env(n, None)
        elif op == "sel":
            v = env(n, a[0])
        elif op == "sum":
            v = n.k[1]
            for x, k in zip(a, n.k[0]):
                v += x * k
        elif op == "concat":
            v = 0
            for x, p in zip(a, n.args):
                v = (v << p.w) | x
        elif op == "ext":
            v = a[0] >> n.k[1]
        elif op == "xor":
            v = n.k or 0
            for x in a:
                v ^= x
        elif op == "or":
            v = n.k or 0
            for x in a:
                v |= x
        elif op == "and":
            v = m if n.k is None else n.k
            for x in a:
                v &= x
        elif op == "mul":
            v = a[0] * a[1]
        elif op == "umulh":
            v = (a[0] * a[1]) >> w
        elif op == "shl":
            v = a[0] << a[1] if a[1] < w else 0
        elif op == "lshr":
            v = a[0] >> a[1] if a[1] < w else 0
        elif op == "ashr":
            v = _sgn(a[0], w) >> min(a[1], w)
        elif op == "eq":
            v = int(a[0] == a[1])
        elif op == "ult":
            v = int(a[0] < a[1])
        elif op == "slt":
            ww = n.args[0].w
            v = int(_sgn(a[0], ww) < _sgn(a[1], ww))
        elif op == "ite":
            v = a[1] if a[0] else a[2]
        elif op == "udiv":
            v = a[0] // a[1] if a[1] else m
        elif op == "urem":
            v = a[0] % a[1] if a[1] else a[0]
        elif op == "uf":
            v = UF_IMPL[n.k](*a)
        else:
            raise ValueError(op)
        memo[n.id] = v & m
    return [memo[r.id] for r in roots]


# ---------------------------------------------------------------- AES rounds

def _build_aes():
    sbox = [0] * 256
    p = q = 1
    while True:
        p = p ^ ((p << 1) & 0xFF) ^ (0x1B if p & 0x80 else 0)
        q ^= (q << 1) & 0xFF
        q ^= (q << 2) & 0xFF
        q ^= (q << 4) & 0xFF
        if q & 0x80:
            q ^= 0x09
        x = q ^ ((q << 1 | q >> 7) & 255) ^ ((q << 2 | q >> 6) & 255) ^ \
            ((q << 3 | q >> 5) & 255) ^ ((q << 4 | q >> 4) & 255)
        sbox[p] = (x ^ 0x63) & 0xFF
        if p == 1:
            break
    sbox[0] = 0x63
    inv = [0] * 256
    for i, v in enumerate(sbox):
        inv[v] = i
    return sbox, inv


SBOX, INV_SBOX = _build_aes()


def _xt(a):
    return ((a << 1) ^ (0x1B if a & 0x80 else 0)) & 0xFF


def _gm(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a = _xt(a)
        b >>= 1
    return r


_MT = {k: [_gm(i, k) for i in range(256)] for k in (1, 2, 3, 9, 11, 13, 14)}


def aesenc0(s):
    """MixColumns(SubBytes(ShiftRows(s))): AESENC with a zero key"""
    b = [(s >> (8 * i)) & 255 for i in range(16)]
    t = [SBOX[b[(i + 4 * (i % 4)) % 16]] for i in range(16)]
    out = []
    m2, m3 = _MT[2], _MT[3]
    for c in range(4):
        x = t[4 * c:4 * c + 4]
        out += [m2[x[0]] ^ m3[x[1]] ^ x[2] ^ x[3],
                x[0] ^ m2[x[1]] ^ m3[x[2]] ^ x[3],
                x[0] ^ x[1] ^ m2[x[2]] ^ m3[x[3]],
                m3[x[0]] ^ x[1] ^ x[2] ^ m2[x[3]]]
    return sum(v << (8 * i) for i, v in enumerate(out))


def aesdec0(s):
    b = [(s >> (8 * i)) & 255 for i in range(16)]
    t = [INV_SBOX[b[(i - 4 * (i % 4)) % 16]] for i in range(16)]
    out = []
    m9, mb, md, me = _MT[9], _MT[11], _MT[13], _MT[14]
    for c in range(4):
        x = t[4 * c:4 * c + 4]
        out += [me[x[0]] ^ mb[x[1]] ^ md[x[2]] ^ m9[x[3]],
                m9[x[0]] ^ me[x[1]] ^ mb[x[2]] ^ md[x[3]],
                md[x[0]] ^ m9[x[1]] ^ me[x[2]] ^ mb[x[3]],
                mb[x[0]] ^ md[x[1]] ^ m9[x[2]] ^ me[x[3]]]
    return sum(v << (8 * i) for i, v in enumerate(out))


UF_IMPL["aesenc"] = aesenc0
UF_IMPL["aesdec"] = aesdec0


def aesenc(s, k):
    """the last step of the round is a plain xor with the key"""
    if s.op == "const":
        e = const(aesenc0(s.k), 128)
    else:
        e = uf("aesenc", 128, s)
    return xor(e, k)


def aesdec(s, k):
    if s.op == "const":
        e = const(aesdec0(s.k), 128)
    else:
        e = uf("aesdec", 128, s)
    return xor(e, k)


# ---------------------------------------------------------------- printing

def pretty(n, depth=6):
    if n.op == "const":
        return "0x%x:%d" % (n.k, n.w)
    if n.op == "sym":
        return n.k
    if depth <= 0:
        return "#%d" % n.id
    f = lambda a: pretty(a, depth - 1)
    if n.op == "sel":
        return "%s[%s]" % (n.k, f(n.args[0]))
    if n.op == "sum":
        s = " + ".join(("%s" % f(a)) if k == 1 else "0x%x*%s" % (k, f(a))
                       for a, k in zip(n.args, n.k[0]))
        return "(%s + 0x%x)" % (s, n.k[1]) if n.k[1] else "(%s)" % s
    if n.op == "ext":
        return "%s[%d:%d]" % (f(n.args[0]), n.k[0], n.k[1])
    if n.op == "concat":
        return "{%s}" % ", ".join(f(a) for a in n.args)
    return "%s(%s%s)" % (n.op if n.op != "uf" else n.k, ", ".join(f(a) for a in n.args),
                         "" if n.k is None or n.op == "uf" else "; %r" % (n.k,))
