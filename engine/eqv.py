"""Decides equality of two terms under a path condition.

The verdict comes from z3: 'proved' (unsat for all values), 'cex' (an
assignment that the concrete evaluator confirms) or 'unknown'."""
import hashlib
import os
import time
from . import bv, smt
from .bv import const, mask

LEMMAS = {}          # canonical pair -> verdict
LEMMA_DIR = None     # verdicts shared by the workers of one run (removed at its end)
COUNT = {"identical": 0, "uf": 0, "sweep": 0, "exact": 0, "lemma": 0, "lemma_cached": 0,
         "refuted": 0, "unknown": 0}


def reset():
    LEMMAS.clear()
    for k in COUNT:
        COUNT[k] = 0


class Env:
    """an assignment: symbols by name, memory by (array, offset)"""

    def __init__(self, syms=None, mem=None, seed=None, dflt=0):
        self.syms = dict(syms or {})
        self.mem = dict(mem or {})
        self.seed = seed
        self.dflt = dflt

    def _gen(self, key, w):
        if self.seed is None:
            return self.dflt & mask(w)
        if isinstance(self.seed, str):
            return {"zero": 0, "ones": mask(w), "inc": (key[1] if isinstance(key, tuple) else 1)
                    & mask(w), "top": 1 << (w - 1)}[self.seed]
        h = hashlib.blake2b(repr((self.seed, key)).encode(), digest_size=16).digest()
        return int.from_bytes(h, "little") & mask(w)

    def __call__(self, n, off):
        if n.op == "sym":
            v = self.syms.get(n.k)
            if v is None:
                v = self.syms[n.k] = self._gen(n.k, n.w)
            return v & mask(n.w)
        key = (n.k, off)
        v = self.mem.get(key)
        if v is None:
            v = self.mem[key] = self._gen(key, 8)
        return v

    def byte(self, arr, off):
        v = self.mem.get((arr, off))
        if v is None:
            v = self.mem[(arr, off)] = self._gen((arr, off), 8)
        return v


def model_env(model, roots):
    """complete assignment for the leaves under roots taken from a z3 model"""
    f = model.env()
    e = Env()
    for n in bv.leaves(roots):
        if n.op == "sym":
            e.syms[n.k] = f(n, None)

    class M(Env):
        def __call__(self, n, off):
            if n.op == "sel" and (n.k, off) not in self.mem:
                self.mem[(n.k, off)] = f(n, off)
            return Env.__call__(self, n, off)
    e.__class__ = M
    return e


def holds(cs, env):
    return all(v == 1 for v in bv.evaluate(list(cs), env)) if cs else True


class Res:
    __slots__ = ("status", "env", "how")

    def __init__(self, status, env=None, how=""):
        self.status, self.env, self.how = status, env, how

    def __repr__(self):
        return "Res(%s,%s)" % (self.status, self.how)


def sim_envs(k=10, fixed=None):
    out = [Env(fixed, seed="zero"), Env(fixed, seed="ones")]
    for i in range(k):
        out.append(Env(fixed, seed=1000 + i))
    return out


def page_envs(addr_name, w, length):
    """addresses around page borders, everything else random"""
    out = []
    base = 0x5000 if w == 32 else 0x7f0000005000
    for k in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 4095, 4094, 4093, 4092, 4091, 4090, 4089,
              4088, 4087):
        out.append(Env({addr_name: base + k}, seed=2000 + k))
    for k in (0, 1, 2, 3, 4, 7, 8, 9):
        out.append(Env({addr_name: base + 0x10000 - length - k}, seed=3000 + k))
    return out


def _alike(v, y):
    """worth a case of its own"""
    return True


def equal(x, y, pc=(), timeout_ms=15000, envs=None, exact=True, deadline=None, depth=4):
    if x.w != y.w:
        return Res("cex", Env(), "width")
    if x is y:
        COUNT["identical"] += 1
        # the goal x != y over one term; recorded as a (trivial) query
        smt.check([bv.not_(bv.eq(x, y))], timeout_ms)
        return Res("proved", None, "identical")
    pc = [c for c in pc if c is not bv.TRUE]
    roots = [x, y] + list(pc)
    for e in (envs if envs is not None else sim_envs()):
        vals = bv.evaluate(roots, e)
        if all(v == 1 for v in vals[2:]) and vals[0] != vals[1]:
            COUNT["refuted"] += 1
            return Res("cex", e, "simulation")
    goal = bv.not_(bv.eq(x, y))
    if goal is bv.FALSE:
        smt.check([goal])
        COUNT["identical"] += 1
        return Res("proved", None, "identical")

    def left(t):
        if deadline is None:
            return t
        return max(200, min(t, int((deadline - time.time()) * 1000)))

    if x.op == "ite" and depth:
        # case by case; what a case leaves open goes on as a whole
        n = 0
        for c, v in ((x.args[0], x.args[1]), (bv.not_(x.args[0]), x.args[2])):
            if c is bv.FALSE:
                n += 1
                continue
            if v is not y and v.op != "ite" and not _alike(v, y):
                continue
            r = equal(v, y, list(pc) + [c], timeout_ms, [], exact, deadline, depth - 1)
            if r.status == "cex":
                return r
            n += r.status == "proved"
        if n == 2:
            return Res("proved", None, "cases")

    r, m = smt.check(pc + [goal], left(timeout_ms), mode="uf")
    if r == "unsat":
        COUNT["uf"] += 1
        return Res("proved", None, "uf")
    if r == "sat":
        e = model_env(m, roots)
        vals = bv.evaluate(roots, e)
        if all(v == 1 for v in vals[2:]) and vals[0] != vals[1]:
            COUNT["refuted"] += 1
            return Res("cex", e, "solver")
    # sweeping
    x2 = sweep(x, y, pc, timeout_ms, deadline)
    if x2 is y:
        COUNT["sweep"] += 1
        return Res("proved", None, "sweep")
    if exact:
        goal = bv.not_(bv.eq(x2, y))
        r, m = smt.check(pc + [goal], left(timeout_ms))
        if r == "unsat":
            COUNT["exact"] += 1
            return Res("proved", None, "exact")
        if r == "sat":
            e = model_env(m, roots)
            vals = bv.evaluate(roots, e)
            if all(v == 1 for v in vals[2:]) and vals[0] != vals[1]:
                COUNT["refuted"] += 1
                return Res("cex", e, "solver exact")
    COUNT["unknown"] += 1
    return Res("unknown")


# ------------------------------------------------------------ sweeping

def has_half(n):
    """does the cone use 32-bit high products (portable 64x64 multiplication)?"""
    return any(t.op == "umulh" and t.w == 32 for t in bv.topo([n]))


def school(n):
    """rewrite 64-bit products by constants into 32-bit ones (schoolbook form)"""
    def f(t, memo={}):
        return None
    smap = {}
    for t in bv.topo([n]):
        if t.op == "umulh" and t.w == 64 and t.args[1].op == "const":
            smap[t] = _expand(t.args[0], t.args[1])[0]
        elif t.op == "sum" and t.w == 64:
            light, hv = smt.Tr().groups(t)
            if hv:
                d = {}
                for a, k in light:
                    bv._lin_add(d, a, k, 64)
                for k, inner in hv.items():
                    bv._lin_add(d, _expand(inner, const(k, 64))[1], 1, 64)
                smap[t] = bv.lin_from(d, t.k[1], 64)
    return bv.substitute([n], smap)[0] if smap else n


def _expand(x, p):
    """(high, low) 64-bit halves of x*p through 32x32->64 products"""
    z = lambda a: bv.zext(a, 64)
    xl, xh = bv.ext(x, 31, 0), bv.ext(x, 63, 32)
    pl, ph = bv.ext(p, 31, 0), bv.ext(p, 63, 32)
    m = lambda a, b: bv.mul(z(a), z(b))
    ll, lh, hl, hh = m(xl, pl), m(xh, pl), m(xl, ph), m(xh, ph)
    w = lambda n: bv.zext(n, 128)
    full = bv.add(bv.add(w(ll), bv.shl(bv.add(w(lh), w(hl)), const(32, 128))),
                  bv.shl(w(hh), const(64, 128)))
    return bv.ext(full, 127, 64), bv.ext(full, 63, 0)


def canon(nodes, cutset):
    """serialise cones with cut nodes renamed by first occurrence"""
    names = {}
    out = []
    idx = {}
    stack = [(n, False) for n in reversed(nodes)]
    while stack:
        n, done = stack.pop()
        if n.id in idx:
            continue
        if n.op != "const" and (n in cutset or not n.args):
            names.setdefault(n.id, len(names))
            idx[n.id] = len(out)
            out.append(("v", n.w, names[n.id]))
            continue
        if not done:
            stack.append((n, True))
            for a in reversed(n.args):
                if a.id not in idx:
                    stack.append((a, False))
            continue
        idx[n.id] = len(out)
        out.append((n.op, n.w, n.k, tuple(idx[a.id] for a in n.args)))
    return (tuple(out), tuple(idx[n.id] for n in nodes))


SYMC = {}


def prove_local(a, b, cutset, timeout_ms):
    """a == b with the nodes of cutset as free variables"""
    cuts = {}
    for n in bv.topo([a, b]):
        if n in cutset and n.op != "const":
            cuts[n] = None
    # stop at outermost cuts only
    key = canon([a, b], cuts)
    v = LEMMAS.get(key)
    if v is None:
        v = shared_get(key, timeout_ms)
        if v is not None:
            LEMMAS[key] = v
    if v is not None:
        COUNT["lemma_cached"] += 1
        return v
    smap = {n: bv.sym("cut_%d_%d" % (n.w, i), n.w) for i, n in enumerate(sorted(
        cuts, key=lambda t: t.id))}
    for n in (a, b):
        smap.pop(n, None)
    a2, b2 = bv.substitute([a, b], smap)
    ok = False
    if a2 is b2:
        ok = True
    else:
        if has_half(a2) or has_half(b2):
            a3, b3 = school(a2), school(b2)
        else:
            a3, b3 = a2, b2
        r, _ = smt.check([bv.not_(bv.eq(a3, b3))], timeout_ms, mode="uf", want_model=False)
        ok = r == "unsat"
        if not ok and a3 is a2:
            r, _ = smt.check([bv.not_(bv.eq(a2, b2))], min(timeout_ms, 5000), want_model=False)
            ok = r == "unsat"
    COUNT["lemma"] += 1
    LEMMAS[key] = ok
    shared_put(key, ok)
    return ok


def _lemma_file(key):
    h = hashlib.blake2b(repr(key).encode(), digest_size=16).hexdigest()
    return os.path.join(LEMMA_DIR, h)


def shared_get(key, timeout_ms):
    """verdict another worker reached in this run, waiting while it is at it"""
    if LEMMA_DIR is None:
        return None
    f = _lemma_file(key)
    t0 = time.time()
    try:
        os.close(os.open(f + ".lock", os.O_CREAT | os.O_EXCL))
        return None
    except FileExistsError:
        pass
    except OSError:
        return None
    while time.time() - t0 < 2 + timeout_ms / 1000 * 3:
        try:
            with open(f) as g:
                return g.read() == "1"
        except FileNotFoundError:
            time.sleep(0.01)
    return None


def shared_put(key, ok):
    if LEMMA_DIR is None:
        return
    f = _lemma_file(key)
    try:
        with open(f + ".%d" % os.getpid(), "w") as g:
            g.write("1" if ok else "0")
        os.replace(f + ".%d" % os.getpid(), f)
    except OSError:
        pass


def signatures(roots, k=4):
    envs = [Env(seed=77 + i) for i in range(k)]
    nodes = bv.topo(roots)
    vals = [bv.evaluate(nodes, e) for e in envs]
    return {n.id: (n.w,) + tuple(v[i] for v in vals) for i, n in enumerate(nodes)}, envs


def sweep(x, y, pc, timeout_ms, deadline=None):
    """rebuild x bottom-up, replacing nodes proved equal to nodes of y"""
    sig, envs = signatures([x, y])
    spec = {}
    ynodes = bv.topo([y])
    yids = {n.id for n in ynodes}
    for n in ynodes:
        if n.op in ("const",):
            continue
        spec.setdefault(sig[n.id], n)
    memo = {}
    fails = 0
    for n in bv.topo([x]):
        if not n.args:
            memo[n.id] = n
            continue
        na = [memo[a.id] for a in n.args]
        r = n if all(p is q for p, q in zip(na, n.args)) else bv.rebuild(n, na)
        if r.id not in yids and r.op != "const":
            t = spec.get(sig[n.id])
            if t is not None and t is not r and fails < 40 and \
                    (deadline is None or time.time() < deadline):
                cut = set()
                # free variables: nodes of y strictly below t that r also uses
                below = {a.id for a in bv.topo([t])} - {t.id}
                rt = bv.topo([r])
                cut = {a for a in rt if a.id in below and a.op not in ("const",)}
                cut = top_cuts(r, t, cut)
                if prove_local(r, t, cut, timeout_ms):
                    r = t
                else:
                    fails += 1
        memo[n.id] = r
    return memo[x.id]


def top_cuts(r, t, cand):
    """keep cut candidates that hide shared computation but not the operation in
    question: multiplicands and addends, i.e. nodes of y that appear whole in r"""
    # avoid cutting trivially inside: prefer the largest shared nodes
    keep = set()
    seen = set()
    stack = [r]
    while stack:
        n = stack.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n in cand and n is not r:
            keep.add(n)
            continue
        stack.extend(n.args)
    # the t side must be expressible over the same cuts or leaves: fine, leaves stay free
    return keep
