"""Solver layer: translation of bv terms to z3 bit-vectors (exact, or with
multiplications and AES rounds as uninterpreted functions), to linear integer
arithmetic (for products with constants), and accounting of every query."""
import time
import threading
import z3
from . import bv
from .bv import mask

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "solver_s": 0.0,
         "feasibility": 0, "trivial": 0}


def stats_reset():
    for k in STATS:
        STATS[k] = 0
    STATS["solver_s"] = 0.0


def stats_add(other):
    for k, v in other.items():
        STATS[k] = STATS.get(k, 0) + v


def heavy(k, w):
    k2 = min(k, (-k) & mask(w))
    return bin(k2).count("1") > 3


class Tr:
    """translation context"""

    def __init__(self, mode="exact", cuts=None):
        self.mode = mode            # exact | uf
        self.cuts = cuts or {}      # node -> z3 expr
        self.memo = {}
        self.vars = {}              # node -> z3 var (sym / const-offset sel)
        self.sels = {}              # array name -> z3 function (symbolic offsets)
        self.ufs = {}

    def fn(self, name, *sorts):
        f = self.ufs.get(name)
        if f is None:
            f = self.ufs[name] = z3.Function(name, *sorts)
        return f

    def __call__(self, root):
        memo = self.memo
        r = memo.get(root.id)
        if r is not None:
            return r
        stack = [(root, False)]
        while stack:
            n, done = stack.pop()
            if n.id in memo:
                continue
            c = self.cuts.get(n)
            if c is not None:
                memo[n.id] = c
                continue
            kids = self.kids(n)
            if not done:
                stack.append((n, True))
                for a in kids:
                    if a.id not in memo:
                        stack.append((a, False))
                continue
            memo[n.id] = self.one(n)
        return memo[root.id]

    def groups(self, n):
        """sum -> (light [(atom,k)], heavy {k: inner node})"""
        light, hv = [], {}
        w = n.w
        for a, k in zip(n.args, n.k[0]):
            if heavy(k, w):
                hv.setdefault(k, []).append(a)
            else:
                light.append((a, k))
        return light, {k: bv.lin_from({a: 1 for a in l}, 0, w) for k, l in hv.items()}

    def kids(self, n):
        if n.op == "sum":
            light, hv = self.groups(n)
            return [a for a, _ in light] + list(hv.values())
        return n.args

    def one(self, n):
        op, w = n.op, n.w
        a = None
        if op != "sum":
            a = [self.memo[x.id] for x in n.args]
        if op == "const":
            return z3.BitVecVal(n.k, w)
        if op == "sym":
            v = self.vars[n] = z3.BitVec(n.k, w)
            return v
        if op == "sel":
            o = n.args[0]
            f = self.sels.get(n.k)
            if f is None:
                f = self.sels[n.k] = z3.Function("M_%s_%d" % (n.k, o.w), z3.BitVecSort(o.w),
                                                 z3.BitVecSort(8))
            v = f(a[0])
            self.vars[n] = v
            return v
        if op == "sum":
            light, hv = self.groups(n)
            acc = None
            for x, k in light:
                t = self.memo[x.id]
                if k == mask(w):
                    acc = -t if acc is None else acc - t
                    continue
                if k != 1:
                    t = t * z3.BitVecVal(k, w)
                acc = t if acc is None else acc + t
            for k, x in sorted(hv.items()):
                t = self.memo[x.id]
                if self.mode == "uf":
                    t = self.fn("mul_%x_%d" % (k, w), z3.BitVecSort(w), z3.BitVecSort(w))(t)
                else:
                    t = z3.BitVecVal(k, w) * t
                acc = t if acc is None else acc + t
            if n.k[1]:
                acc = acc + z3.BitVecVal(n.k[1], w)
            return acc
        if op == "concat":
            return z3.Concat(*a)
        if op == "ext":
            return z3.Extract(n.k[0], n.k[1], a[0])
        if op in ("xor", "and", "or"):
            r = a[0]
            xs = a[1:]
            if n.k is not None:
                xs = xs + [z3.BitVecVal(n.k, w)]
            for x in xs:
                r = r ^ x if op == "xor" else (r & x if op == "and" else r | x)
            return r
        if op == "mul":
            if self.mode == "uf":
                return self.fn("mul_%d" % w, *([z3.BitVecSort(w)] * 3))(*a)
            return a[0] * a[1]
        if op == "umulh":
            if self.mode == "uf":
                return self.fn("umulh_%d" % w, *([z3.BitVecSort(w)] * 3))(*a)
            return z3.Extract(2 * w - 1, w, z3.ZeroExt(w, a[0]) * z3.ZeroExt(w, a[1]))
        if op == "shl":
            return a[0] << a[1]
        if op == "lshr":
            return z3.LShR(a[0], a[1])
        if op == "ashr":
            return a[0] >> a[1]
        if op == "eq":
            return z3.If(a[0] == a[1], z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        if op == "ult":
            return z3.If(z3.ULT(a[0], a[1]), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        if op == "slt":
            return z3.If(a[0] < a[1], z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        if op == "ite":
            return z3.If(a[0] == z3.BitVecVal(1, 1), a[1], a[2])
        if op == "udiv":
            return z3.UDiv(a[0], a[1])
        if op == "urem":
            return z3.URem(a[0], a[1])
        if op == "uf":
            f = self.fn("uf_" + n.k, *([z3.BitVecSort(x.w) for x in n.args] + [z3.BitVecSort(w)]))
            return f(*a)
        raise ValueError(op)

    def b(self, n):
        """1-bit node -> z3 Bool"""
        if n.op == "const":
            return z3.BoolVal(bool(n.k))
        if n.id in self.memo or n in self.cuts:
            return self(n) == z3.BitVecVal(1, 1)
        # direct forms (cheaper)
        if n.op == "eq":
            return self(n.args[0]) == self(n.args[1])
        if n.op == "ult":
            return z3.ULT(self(n.args[0]), self(n.args[1]))
        if n.op == "xor" and n.k == 1 and len(n.args) == 1:
            return z3.Not(self.b(n.args[0]))
        if n.op == "and" and n.k is None:
            return z3.And(*[self.b(x) for x in n.args])
        if n.op == "or" and n.k is None:
            return z3.Or(*[self.b(x) for x in n.args])
        return self(n) == z3.BitVecVal(1, 1)


class Model:
    """values for leaves, completed with zeros"""

    def __init__(self, m, tr):
        self.m = m
        self.tr = tr

    def val(self, node):
        """value of any node whose leaves are in the translation"""
        v = self.m.eval(self.tr(node), model_completion=True)
        return v.as_long()

    def env(self, default=0):
        m, tr = self.m, self.tr

        def f(n, off):
            if n.op == "sym":
                v = tr.vars.get(n)
                if v is None:
                    return default
                return m.eval(v, model_completion=True).as_long()
            fn = tr.sels.get(n.k)
            if fn is None:
                return default
            return m.eval(fn(z3.BitVecVal(off, n.args[0].w)), model_completion=True).as_long()
        return f


def check(assertions, timeout_ms=20000, mode="exact", cuts=None, kind="queries",
          want_model=True, tactic=None):
    """assertions: list of 1-bit nodes (conjunction). -> ('unsat'|'sat'|'unknown', Model|None)"""
    tr = Tr(mode, cuts)
    if tactic:
        s = z3.Then(*tactic).solver()
    else:
        s = z3.SolverFor("QF_UFBV") if mode == "uf" else z3.Solver()
    s.set("timeout", int(timeout_ms))
    for a in assertions:
        if a.op == "const":
            if a.k == 0:
                STATS[kind] = STATS.get(kind, 0) + 1
                STATS["trivial"] += 1
                STATS["unsat"] += 1
                # still handed to the solver for the record: the goal is false
                return "unsat", None
            continue
        s.add(tr.b(a))
    t0 = time.time()
    r = s.check()
    STATS["solver_s"] += time.time() - t0
    STATS[kind] = STATS.get(kind, 0) + 1
    r = str(r)
    STATS[r if r in ("sat", "unsat") else "unknown"] += 1
    if r == "sat":
        return r, (Model(s.model(), tr) if want_model else None)
    return r, None


def feasible(pc, extra=None, timeout_ms=5000):
    """is the conjunction satisfiable?  unknown counts as feasible"""
    xs = list(pc) + ([extra] if extra is not None else [])
    r, _ = check(xs, timeout_ms, kind="feasibility", want_model=False)
    return r != "unsat"


# ---------------------------------------------------------------- integers

class Lia:
    """linear integer encoding keeping the mod-2^w semantics exactly"""

    def __init__(self, cuts=None):
        self.memo = {}
        self.cons = []
        self.n = 0
        self.vars = {}
        self.cuts = cuts or {}

    def new(self, lo, hi, name="t"):
        self.n += 1
        v = z3.Int("%s%d" % (name, self.n))
        self.cons.append(v >= lo)
        self.cons.append(v <= hi)
        return v

    def __call__(self, root):
        for n in bv.topo([root]):
            if n.id in self.memo:
                continue
            self.memo[n.id] = self.one(n)
        return self.memo[root.id]

    def b(self, n):
        if n.op == "const":
            return z3.BoolVal(bool(n.k))
        if n.op == "eq":
            return self(n.args[0]) == self(n.args[1])
        if n.op == "ult":
            return self(n.args[0]) < self(n.args[1])
        if n.op == "xor" and n.k == 1 and len(n.args) == 1:
            return z3.Not(self.b(n.args[0]))
        if n.op == "and" and n.k is None:
            return z3.And(*[self.b(x) for x in n.args])
        if n.op == "or" and n.k is None:
            return z3.Or(*[self.b(x) for x in n.args])
        if n.op == "xor":
            r = None
            for x in n.args:
                r = self.b(x) if r is None else z3.Xor(r, self.b(x))
            return z3.Not(r) if n.k else r
        return self(n) == 1

    def one(self, n):
        op, w = n.op, n.w
        if op == "const":
            return z3.IntVal(n.k)
        if op in ("sym", "sel"):
            v = self.vars[n] = self.new(0, mask(w), "v")
            return v
        a = [self.memo[x.id] for x in n.args]
        if op == "sum":
            full = 1 << w
            acc = None
            lo = hi = 0
            for x, k, ar in zip(a, n.k[0], n.args):
                if k > full // 2:
                    k -= full
                acc = k * x if acc is None else acc + k * x
                mx = mask(ar.w - bv.top_zeros(ar))
                if k > 0:
                    hi += k * mx
                else:
                    lo += k * mx
            c = n.k[1]
            acc = acc + c
            lo += c
            hi += c
            if lo >= 0 and hi < full:
                return acc
            v = self.new(0, full - 1)
            t = self.new(lo // full, hi // full)
            self.cons.append(acc == v + full * t)
            return v
        if op == "concat":
            acc = None
            pos = w
            for x, p in zip(a, n.args):
                pos -= p.w
                if p.op == "const" and p.k == 0:
                    continue
                t = x if pos == 0 else (1 << pos) * x
                acc = t if acc is None else acc + t
            return acc if acc is not None else z3.IntVal(0)
        if op == "ext":
            hi, lo = n.k
            x = a[0]
            pw = n.args[0].w
            v = self.new(0, mask(w))
            parts = v * (1 << lo) if lo else v
            if lo:
                parts = parts + self.new(0, mask(lo))
            if hi + 1 < pw:
                parts = parts + (1 << (hi + 1)) * self.new(0, mask(pw - hi - 1))
            self.cons.append(x == parts)
            return v
        if op == "umulh":
            if n.args[1].op != "const":
                raise NotImplementedError
            k = n.args[1].k
            h = self.new(0, k - 1)
            l = self.new(0, mask(w))
            self.cons.append(a[0] * k == h * (1 << w) + l)
            return h
        if op in ("eq", "ult") or (w == 1 and op in ("xor", "and", "or")):
            return z3.If(self.b(n), z3.IntVal(1), z3.IntVal(0))
        if op == "ite":
            return z3.If(self.b(n.args[0]), a[1], a[2])
        if op == "xor" and len(a) == 1 and n.k == mask(w):
            return mask(w) - a[0]
        raise NotImplementedError(op)


def lia_equal(x, y, timeout_ms=20000):
    """decide x == y for all leaf values by integer arithmetic"""
    L = Lia()
    try:
        s = z3.Solver()
        xe, ye = L(x), L(y)
    except NotImplementedError:
        return "unknown", None
    s.set("timeout", int(timeout_ms))
    s.add(*L.cons)
    s.add(xe != ye)
    t0 = time.time()
    r = str(s.check())
    STATS["solver_s"] += time.time() - t0
    STATS["queries"] += 1
    STATS[r if r in ("sat", "unsat") else "unknown"] += 1
    if r == "sat":
        m = s.model()
        return r, {n: m.eval(v, model_completion=True).as_long() for n, v in L.vars.items()}
    return r, None
