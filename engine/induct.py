"""All lengths at once: the block loop by induction.

The length is q*L + r with r fixed and q symbolic.  The code runs symbolically
to the first visit of its data loop; three visits show how every register and
memory cell moves (unchanged, by a constant per block, with the state words of
the specification, or otherwise).  Then, for every q:

  base   the state at the first visit is the specification's initial state;
  step   from the state of an arbitrary visit K < last, every path comes back
         to the loop head and restores that description with the
         specification's next state, having consumed one more block;
  exit   from visit K = last every path leaves, and what is delivered equals
         the specification's result on the remaining bytes.

What does not fit (other loop shapes) raises Unsupported: the bounded claims
stand alone then.
"""
from . import bv, smt, sx, eqv
from .bv import const, sym, add, sub, ext, zext, concat, ule, mulc

WRONG = ("cex",)


class Fail(Exception):
    """an obligation of the induction did not go through"""

    def __init__(self, what, conds=(), goal=None, how="unknown"):
        Exception.__init__(self, what)
        self.what, self.conds, self.goal, self.how = what, list(conds), goal, how


class Loop:
    """job: object with
         c, state, w, q, lb (log2 L), r, D       the prepared call
         spec0() -> (words, off0)                specification at zero blocks
         specstep(words, off) -> words
         compare(states, words, off, rest, pc) -> None or raises Fail
    """

    def __init__(self, job, q0, values=True):
        self.j, self.q0, self.values = job, q0, values
        self.c, self.w = job.c, job.w
        self.q = job.q
        self.L = 1 << job.lb
        self.lenn = concat(job.q, const(job.r, job.lb)) if job.lb else job.q
        self.proved = 0
        self.fails = []
        self.loops = 0
        self.order = []
        w = self.w
        one = [ule(const(q0, self.q.w), self.q),
               bv.not_(ext(self.lenn, w - 1, w - 1))]
        self.c.assume += one
        self.words0, self.off00 = job.spec0() if values else ((), 0)
        self.off0 = self.off00

    # ------------------------------------------------------------ running
    def outermost(self, fr):
        loops = fr.fn.cfg()[1]
        b = fr.block
        if b not in loops or fr.idx != self.c.nphi(fr):
            return False
        return not any(h != b and b in body for h, body in loops.items())

    def run(self, s, stop):
        s.status = "run"
        s.info = None
        if len(s.pc) > 60:
            raise sx.Unsupported("too many conditions")
        out = self.c.run(s, ("user", stop, None) if stop else None)
        if len(out) > 64:
            raise sx.Unsupported("too many paths")
        return out

    def any_head(self, s):
        return bool(s.frames) and self.outermost(s.frames[-1])

    def head_of(self, s):
        return s.frames[-1].uid, s.frames[-1].block, len(s.frames)

    def pass_stop(self, H):
        uid, block, depth = H

        def f(s):
            if len(s.frames) < depth or s.frames[depth - 1].uid != uid:
                return self.any_head(s)
            fr = s.frames[depth - 1]
            if len(s.frames) == depth and fr.block == block and fr.idx == self.c.nphi(fr):
                return True
            if fr.block in fr.fn.cfg()[1][block]:
                return False
            return self.any_head(s)
        return f

    def one_pass(self, s, H):
        again, other = [], []
        for x in self.run(s.clone(), self.pass_stop(H)):
            if x.status == "stop" and self.head_of(x) == H:
                again.append(x)
            else:
                other.append(x)
        return again, other

    def go(self):
        """True: every path of the call was accounted for"""
        work = self.run(self.j.state.clone(), self.any_head)
        n = 0
        while work:
            n += 1
            if n > 40:
                raise sx.Unsupported("too many loops")
            s = work.pop()
            if s.status != "stop":
                if s.status == "ret":
                    self.fails.append(Fail("path without the block loop", s.pc))
                continue
            work += self.loop(s)
        return not self.fails

    def loop(self, s):
        """one visit of an outermost loop head; returns states still to do"""
        H = self.head_of(s)
        snaps = [s]
        early = []
        first = None
        c0 = self.c.asked
        while len(snaps) < 4:
            again, other = self.one_pass(snaps[-1], H)
            early += other
            if first is None:
                first = other + again[1:]
            if not again:
                return early            # a short loop
            snaps.append(again[0])
            if len(again) > 1:
                early += again[1:]
        if self.c.asked == c0 and not early:
            # a counted loop
            x = snaps[-1]
            for _ in range(70):
                again, other = self.one_pass(x, H)
                if not again:
                    return other
                if other or len(again) > 1 or self.c.asked != c0:
                    break
                x = again[0]
        fails = []
        for base in (0, 1):
            try:
                self.induct(H, snaps[base:base + 3], base)
                self.loops += 1
                return first if base else []
            except Fail as f:
                fails.append(f)
        # a bounded loop after all?
        work = [x for x in early if x.status == "stop" and self.head_of(x) == H] + [snaps[-1]]
        done = [x for x in early if x not in work]
        forks = 0
        for _ in range(70):
            nxt = []
            for x in work:
                again, other = self.one_pass(x, H)
                forks += bool(again and other)
                nxt += again
                done += other
            work = nxt
            if not work:
                return done
            if len(work) > 8 or forks > 2:
                break
        # whole runs first: their conditions are about real inputs
        for x in early[:6]:
            if x.status == "ret":
                self.fails.append(Fail("early way out of the block loop", x.pc))
        self.fails += fails
        return []

    # ------------------------------------------------------------ cells
    def cells(self, s):
        """location -> term"""
        out = {}
        for i, fr in enumerate(s.frames):
            for r, v in fr.regs.items():
                if isinstance(v, bv.Node):
                    out[("r", i, r)] = v
        for oid, o in s.mem.items():
            if o.kind in ("alloca", "ctx", "extra", "global"):
                for off, (sz, v) in o.cells.items():
                    out[("m", oid, off, sz)] = v
        return out

    def put(self, s, loc, v):
        if loc[0] == "r":
            s.frames[loc[1]].regs[loc[2]] = v
        else:
            o = s.wobj(loc[1])
            self.c.punch(o, loc[2], loc[3])
            o.cells[loc[2]] = (loc[3], v)

    def read(self, s, loc):
        if loc[0] == "r":
            return s.frames[loc[1]].regs.get(loc[2])
        o = s.mem[loc[1]]
        c = o.cells.get(loc[2])
        if c is not None and c[0] == loc[3]:
            return c[1]
        return self.c.join(self.c.load_bytes(o, loc[2], loc[3]))

    def kval(self, width, sub_=None, shift=0):
        """the visit number at some width: symbolic, or (blocks q) - sub_"""
        n = self.kk if sub_ is None else self.q
        v = zext(n, width) if width >= n.w else ext(n, width - 1, 0)
        if sub_ is not None:
            v = sub(v, const(sub_, width))
        return v

    # ------------------------------------------------------------ induction
    def induct(self, H, snaps, base):
        c, w, q, L = self.c, self.w, self.q, self.L
        s1 = snaps[0]
        cs = [self.cells(x) for x in snaps]
        kind = {}
        rest = []
        for loc, v1 in cs[0].items():
            v2, v3 = cs[1].get(loc), cs[2].get(loc)
            if v1 is v2 and v2 is v3:
                kind[loc] = ("const", v1)
                continue
            if v2 is not None and v3 is not None and v1.w in (8, 16, 32, 64):
                d1, d2 = sub(v2, v1), sub(v3, v2)
                if d1.op == "const" and d1 is d2:
                    kind[loc] = ("affine", v1, d1.k)
                    continue
            rest.append(loc)
        blocks = {k[2] // L if k[2] % L == 0 else None for k in kind.values()
                  if k[0] == "affine" and k[1].w == w and
                  self.c.data_atom is not None and
                  any(x is self.c.data_atom for x in bv.leaves([k[1]]))}
        blocks = {b for b in blocks if b}
        if blocks and min(blocks) > 1:
            raise Unroll(min(blocks))
        # the specification's words by simulation
        b0, words, match = self.match(snaps, rest, base) if self.values else (base, (), {})
        self.kk = sym("K", q.w)
        sigma = [sym("state%d" % i, x.w) for i, x in enumerate(words)]
        for loc in rest:
            kind[loc] = ("spec", match[loc]) if loc in match else ("free",)
        # base: what the loop starts from
        for loc in rest:
            if loc in match:
                self.equal(cs[0][loc], self.render(match[loc], words, loc), s1.pc,
                           "initial state")
        last = None
        for _ in range(8):
            try:
                last = None
                keep = Fail("too few blocks")
                for e in (1, 0, 2):
                    if self.q0 < b0 + e:
                        continue            # the first visit might be past the last
                    try:
                        self.step(H, s1, kind, sigma, b0, e)
                        last = e
                        break
                    except Fail as f:
                        if f.how == "exit":
                            keep = f
                            continue
                        raise
                if last is None:
                    raise keep
                break
            except Demote as d:
                for loc in d.locs:
                    kind[loc] = ("free",)
        else:
            raise Fail("no invariant")
        self.leave(H, s1, kind, sigma, b0, last)

    def match(self, snaps, locs, base):
        envs = [eqv.Env({self.q.k: 0x1234 + 77 * i}, seed=500 + i) for i in range(2)]
        best = None
        nodes = []
        for s in snaps:
            nodes += [self.read(s, l) for l in locs]
        # a loop over several blocks may start after any number of them
        unit = getattr(self.j, "unit", None)
        first, off = list(self.words0), self.off00
        for ph in range(self.L // unit[0] if unit else 1):
            if ph:
                first = list(unit[1](first, const(off, self.w)))
                off += unit[0]
            words = first
            seq = [words]
            for i in range(base + len(snaps) + 1):
                words = list(self.j.specstep(words, const(off + i * self.L, self.w)))
                seq.append(words)
            allw = [x for ws in seq for x in ws]
            vals = []
            for e in envs:
                v = bv.evaluate(nodes + allw, e)
                vals.append((v[:len(nodes)], v[len(nodes):]))
            n = len(locs)
            k = len(self.words0)
            for b0 in (base, base + 1):
                if b0 + len(snaps) > len(seq):
                    continue
                table = {}
                for i, x in enumerate(self.words0):
                    sl = {(x.w, 0)}
                    for pw in (64, 32):
                        if x.w > pw:
                            sl |= {(pw, o) for o in range(0, x.w, pw)}
                    for pw, o in sl:
                        key = (pw,) + tuple((v[1][(b0 + t) * k + i] >> o) & bv.mask(pw)
                                            for v in vals for t in range(len(snaps)))
                        table.setdefault(key, (i, o, pw))
                m = {}
                for li, loc in enumerate(locs):
                    W = nodes[li].w
                    tot = [(v[0][t * n + li]) for v in vals for t in range(len(snaps))]
                    for pw in (W, 64, 32):
                        if pw > W or W % pw:
                            continue
                        hit = [table.get((pw,) + tuple((x >> o) & bv.mask(pw) for x in tot))
                               for o in range(0, W, pw)]
                        if any(h is not None for h in hit):
                            m[loc] = (pw, tuple(hit))
                            if all(h is not None for h in hit):
                                break
                score = len({h[0] for mm in m.values() for h in mm[1] if h})
                if best is None or score > best[0]:
                    best = (score, b0, m, seq[b0], off)
        self.off0 = best[4]
        return best[1], best[3], best[2]

    def render(self, m, words, loc, free=None):
        """the term a matched location must hold; unmatched chunks are free"""
        pw, hit = m
        parts = []
        for i, h in enumerate(hit):
            if h is None:
                parts.append(None)
            else:
                parts.append(ext(words[h[0]], h[1] + h[2] - 1, h[1]))
        return parts if free is None else concat(*reversed(
            [p if p is not None else free(loc, i, pw) for i, p in enumerate(parts)]))

    def equal(self, v, parts, pc, what):
        pw = parts_w(parts)
        for i, p in enumerate(parts):
            if p is None:
                continue
            x = ext(v, i * pw + pw - 1, i * pw)
            self.same(x, p, pc, what)

    def same(self, x, y, pc, what):
        r = eqv.equal(x, y, self.c.assume + list(pc), 8000, envs=self.envs())
        if r.status != "proved":
            raise Fail(what, list(pc), (x, y), r.status)
        self.proved += 1

    def envs(self):
        out = []
        for i, v in enumerate((0x55, 0x1000, 0x8000001, (1 << self.q.w) // 3)):
            out.append(eqv.Env({self.q.k: v & bv.mask(self.q.w), "K": max(0, v // 2), "D": 0x10000 + i,
                                "Dh": 0x10000 + i}, seed=600 + i))
        return out

    def generic(self, s1, kind, sigma, b0, esub=None):
        """an arbitrary visit: symbolic (esub None) or the last one"""
        s = s1.clone()
        L = self.L

        def free(loc, i, pw):
            return sym("free_%s_%d" % ("_".join(str(x) for x in loc), i), pw)
        for loc, k in kind.items():
            if k[0] == "const":
                continue
            if k[0] == "affine":
                self.put(s, loc, self.affine(k, b0, esub))
            elif k[0] == "spec":
                self.put(s, loc, self.render(k[1], sigma, loc, free))
            else:
                self.put(s, loc, sym("free_" + "_".join(str(x) for x in loc),
                                     self.read(s1, loc).w))
        return s

    def affine(self, k, b0, esub, more=0):
        v1, d = k[1], k[2]
        n = sub(self.kval(v1.w, esub), const(b0 - more, v1.w))
        return add(v1, mulc(n, d))

    def step(self, H, s1, kind, sigma, b0, e):
        c, q = self.c, self.q
        old = list(c.assume)
        kk = self.kk
        bounds = [ule(const(b0, q.w), kk), bv.ult(kk, sub(q, const(e, q.w)))]
        c.assume = old + bounds
        try:
            g = self.generic(s1, kind, sigma, b0)
            mark = self.mark()
            again, other = self.one_pass(g, H)
            other = [x for x in other if x.status in ("ret", "stop")]
            if other:
                self.rewind(mark)
                raise Fail("way out before the last block", list(other[0].pc) + bounds, None,
                           "exit")
            if not again:
                self.rewind(mark)
                raise Fail("no way back", [], None, "exit")
            P = add(mulc(self.kval(self.w), self.L), const(self.off0, self.w))
            nxt = self.j.specstep(sigma, P) if self.values else ()
            bad = set()
            for x in again:
                for loc, k in kind.items():
                    if k[0] == "free":
                        continue
                    try:
                        v = self.read(x, loc)
                    except KeyError:
                        v = None
                    if v is None:
                        bad.add(loc)
                        continue
                    if k[0] == "spec":
                        self.equal(v, self.render(k[1], nxt, loc), x.pc, "block step")
                        continue
                    want = k[1] if k[0] == "const" else self.affine(k, b0, None, 1)
                    if v is want:
                        continue
                    r, _ = smt.check(c.assume + list(x.pc) + [bv.not_(bv.eq(v, want))], 3000,
                                     want_model=False)
                    if r != "unsat":
                        bad.add(loc)
                    else:
                        self.proved += 1
                # cells that came up meanwhile stay undefined in the generic
                # state where memory starts undefined
                for oid, o in x.mem.items():
                    if o is g.mem.get(oid) or o.default[0] == "uninit" or oid not in g.mem:
                        continue
                    for off, (sz, v) in o.cells.items():
                        if ("m", oid, off, sz) not in kind:
                            raise Fail("memory beside the loop state")
            if bad:
                raise Demote(bad)
            for a in c.accesses[mark[0]:] + c.events[mark[1]:]:
                a.pc = tuple(a.pc) + tuple(bounds)
        except Demote:
            self.rewind(mark)
            raise
        except Fail as f:
            if f.goal is not None:
                f.conds += bounds
            raise
        finally:
            c.assume = old

    def mark(self):
        return len(self.c.accesses), len(self.c.events)

    def rewind(self, m):
        del self.c.accesses[m[0]:]
        del self.c.events[m[1]:]

    def leave(self, H, s1, kind, sigma, b0, e):
        c = self.c
        g = self.generic(s1, kind, sigma, b0, e)
        states = self.run(g, None)
        if not self.values:
            if not any(x.status == "ret" for x in states):
                raise Fail("no return")
            return
        words = list(sigma)
        rest = self.j.r - self.off0 + self.L * e
        off = add(sub(concat(self.q, const(0, self.j.lb)), const(self.L * e, self.w)),
                  const(self.off0, self.w))
        while rest >= self.L:
            words = list(self.j.specstep(words, off))
            off = add(off, const(self.L, self.w))
            rest -= self.L
        if rest < 0:
            raise Fail("last block", [])
        done = [x for x in states if x.status == "ret"]
        if not done:
            raise Fail("no return")
        self.j.compare(self, done, words, off, rest)


class Unroll(Exception):
    def __init__(self, m):
        self.m = m


class Demote(Exception):
    def __init__(self, locs):
        self.locs = locs


def parts_w(parts):
    for p in parts:
        if p is not None:
            return p.w
    return 0


def hints(lenn):
    """upper bounds for lengths worth replaying, smallest first"""
    out = []
    for k in (1 << 26, (1 << 31) + (1 << 20), (1 << 32) + (1 << 20), (1 << 33)):
        if k < 1 << (lenn.w - 1):
            out.append(ule(lenn, const(k, lenn.w)))
    return out


def witnesses(lp, f, limit=2):
    """concrete assignments that may show a failed obligation"""
    out = []
    c = lp.c
    for h in hints(lp.lenn):
        if f.goal is not None:
            x, y = f.goal
            pc = list(f.conds) + list(c.assume) + [h]
            r, m = smt.check(pc + [ule(lp.lenn, lp.lenn)], 3000)
            if r != "sat":
                continue
            fixed = {n.k: m.val(n) for n in bv.leaves(pc) if n.op == "sym"}
            es = [eqv.Env(dict(fixed), seed=800 + i) for i in range(3)]
            r = eqv.equal(x, y, pc, 3000, envs=es)
            if r.status == "cex":
                out.append(r.env)
        else:
            pc = list(c.assume) + list(f.conds) + [h]
            r, m = smt.check(pc, 3000)
            if r == "sat":
                out.append(eqv.model_env(m, pc + [lp.lenn, lp.j.D]))
        if len(out) >= limit:
            break
    return out
