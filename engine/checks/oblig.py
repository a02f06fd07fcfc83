"""Obligations on the memory accesses and on the arithmetic of every call."""
from .streamval import *

PAGE = 4096


def stream_prefix(p):
    """lines that bring context 0 to p pending bytes"""
    ls = ["ctx 0 0 1", "init 0 5 6"]
    if p:
        ls = ["buf 1 32 3 1 1 7"] + ls + ["update 0 1 0 %d 1" % p]
    return ls


def access_lines(u, env, pages, extra=()):
    """the call on a key placed as the assignment says; pages: mapped pages
    around the key (0 = guard pages directly beside it)"""
    if getattr(u, "null", False) or u.D is None or u.D.op == "const":
        key, d = -1, 0
        ls = []
    else:
        d = addr_of(u, env)
        key = 0
        ls = ["buf 0 %d %d %d %d 5eed" % (u.n, d & 4095, pages, pages)]
    ls += list(extra)
    if u.fn == "t1ha2_update":
        # the prefix is not what is looked at, so it comes from elsewhere
        return stream_prefix(u.p) + ls + ["update 0 %d 0 %d 1" % (key, u.n), "final 0 0"]
    if u.fn == "t1ha2_final":
        return stream_prefix(u.p) + list(extra) + ["final 0 %d" % (1 if u.wide else 0)]
    return ls + ["hash %s %d %d %x" % (u.fn, key, u.n, 0x1234567)]


def key_reads(u):
    """data accesses as (offset from the key, size, path condition, access)"""
    sh = u.low[1] if getattr(u, "low", None) else 0
    seen = set()
    for a in u.c.accesses:
        if a.okind != "data":
            continue
        off = bv.sub(a.off, const(sh, u.w)) if sh else a.off
        k = (off.id, a.size, tuple(x.id for x in a.pc), a.align, a.bytewise)
        if k in seen:
            continue
        seen.add(k)
        yield off, a.size, a.pc, a


def wild(u):
    """events that mean a dereference nobody can account for"""
    return [e for e in u.c.events if e.kind in ("null-deref", "wild-deref") or
            e.kind.startswith("oob-read")]


def signed(k, w):
    return k - (1 << w) if k >> (w - 1) else k


def discharge(out, u, bads, kind, text, mk, modes, kinds=None):
    """bads: [(path condition + bad condition, access)]; one query per access,
    then a report for the first that can happen"""
    ok = True
    for conds, a in bads:
        r, m = smt.check(u.c.assume + list(conds), 10000)
        if r == "unsat":
            continue
        ok = False
        if r != "sat":
            out.add("unknown")
            continue
        if isinstance(u.n, bv.Node):
            m = u.replayable(conds) or m
        env = eqv.model_env(m, u.c.assume + list(conds) + ([u.D] if u.D is not None else []))
        out.add("cex")
        if isinstance(u.n, bv.Node):
            u = u.at(env)
        d = addr_of(u, env) if u.D is not None else 0
        lines = mk(u, env)
        key = (kind, u.cfg.name, u.fn)
        txt = "length %d, address %#x: %s" % (u.n, d, text(a))
        if replay.native(u.cfg):
            out.candidates.append(core.Candidate(kind, u.cfg.name, u.fn, txt,
                                                 native_replay(u.cfg, lines, modes), key=key))
        else:
            out.candidates.append(core.Candidate(kind, u.cfg.name, u.fn, txt, interp_replay(
                u.cfg, "script", lines=["noref"] + list(lines)), key=key))
        if len(out.candidates) >= 3:
            return
        break
    if ok:
        out.add("proved")
        if not bads:
            smt.check([bv.FALSE])


def bin_of(a):
    return "%s%d bytes at offset %s (%s:%s)" % (
        "write of " if a.kind == "W" else "read of ", a.size,
        signed(a.off.k, a.off.w) if a.off.op == "const" else bv.pretty(a.off, 3)[:60], a.fn, a.line)


def inside(u, off, size, pc):
    """surely within a key of symbolic length (decided without the address)"""
    bad = bv.ult(bv.sub(u.n, const(size, u.w)), off)
    if bad is bv.FALSE:
        return True
    r, _ = smt.check(u.c.relevant(u.c.assume + list(pc), bad) + [bad], 5000, want_model=False)
    return r == "unsat"


def ob_page(out, u):
    """no page without a key byte is touched; nothing at all for length 0"""
    bads = []
    n, w = u.n, u.w
    if u.D is not None:
        D = u.D
        pb = 12
        first = bv.ext(D, w - 1, pb)
        if isinstance(n, bv.Node):
            last = bv.ext(add(D, add(n, const(-1, w))), w - 1, pb)
        else:
            last = bv.ext(add(D, const(n - 1, w)), w - 1, pb) if n else first
        for off, size, pc, a in key_reads(u):
            if n and not isinstance(n, bv.Node) and off.op == "const" and 0 <= signed(off.k, w) and signed(off.k, w) + size <= n:
                continue
            if not isinstance(n, bv.Node) and not n:
                bads.append((list(pc), a))
                continue
            if isinstance(n, bv.Node) and inside(u, off, size, pc):
                continue
            A = add(D, off)
            lo = bv.ext(A, w - 1, pb)
            hi = bv.ext(add(A, const(size - 1, w)), w - 1, pb)
            bads.append((list(pc) + [bv.or_(bv.ult(lo, first), bv.ult(last, hi))], a))
    bads += [(list(e.pc) + [e.cond], e) for e in wild(u)]
    discharge(out, u, bads, "page", lambda a: bin_of(a) if hasattr(a, "size") else a.kind,
              lambda u, env: access_lines(u, env, 0), ("O3", "O0"))


def ob_range(out, u):
    bads = []
    n, w = u.n, u.w
    for off, size, pc, a in key_reads(u):
        if isinstance(n, bv.Node):
            if not inside(u, off, size, pc):
                bads.append((list(pc) + [bv.ult(bv.sub(n, const(size, w)), off)], a))
            continue
        if off.op == "const" and 0 <= signed(off.k, w) and signed(off.k, w) + size <= n:
            continue
        if size > n:
            bads.append((list(pc), a))
        else:
            bads.append((list(pc) + [bv.ult(const(n - size, w), off)], a))
    bads += [(list(e.pc) + [e.cond], e) for e in wild(u)]
    discharge(out, u, bads, "range", lambda a: bin_of(a) if hasattr(a, "size") else a.kind,
              lambda u, env: access_lines(u, env, 1, ["range 0"]), ("trace",))


def ob_align(out, u):
    """word loads only where the address is a multiple of the size (capped by
    the machine word)"""
    bads = []
    w = u.w
    for off, size, pc, a in key_reads(u):
        if a.bytewise or size == 1 or a.align <= 1:
            continue
        k = min(size, w // 8)
        b = k.bit_length() - 1
        A = add(u.D, off)
        c = bv.not_(bv.eq(bv.ext(A, b - 1, 0), const(0, b)))
        if c is bv.FALSE:
            continue
        bads.append((list(pc) + [c], a))
    # loads from the context and other memory, by address
    for a in u.c.accesses:
        if a.okind == "data" or a.bytewise or a.size == 1 or a.align <= 1 or a.kind != "R":
            continue
        k = min(a.size, w // 8, 8)
        if a.off.op == "const" and a.off.k % k == 0:
            continue
        b = k.bit_length() - 1
        c = bv.not_(bv.eq(bv.ext(a.off, b - 1, 0), const(0, b)))
        if c is not bv.FALSE:
            bads.append((list(a.pc) + [c], a))
    discharge(out, u, bads, "align", bin_of,
              lambda u, env: access_lines(u, env, 1, ["align"]), ("trace",))


def ob_pure(out, u):
    """writes only to locals, the context and the result word; no mutable
    global is read"""
    bads = []
    for a in u.c.accesses:
        if a.okind == "global" or (a.kind == "W" and a.okind not in ("alloca", "ctx", "extra")):
            bads.append((list(a.pc), a))
    for e in u.c.events:
        if e.kind.startswith(("write to", "oob-write")):
            bads.append((list(e.pc) + [e.cond], e))
    discharge(out, u, bads, "side effect", lambda a: "%s %s" % (a.kind, getattr(a, "obj", "")),
              pure_lines, ("O3", "O0"))


def pure_lines(u, env):
    ls = access_lines(u, env, 1, ["snap", "noref"])
    if u.fn not in ("t1ha2_update", "t1ha2_final") and ls[0].startswith("buf"):
        # twice, and with the message read-only
        h = ls[-1]
        ls = ls + [h, "same", "buf 9 300 1 1 1 77", h.replace(" 0 %d " % u.n, " 9 300 "), h, h,
                   "same", "freeze 0", h]
    elif u.fn == "t1ha2_update" and ls:
        ls = [x for x in ls]
        ls[-2:-2] = ["freeze 0"] if any(x.startswith("buf 0") for x in ls) else []
    return ls


def ob_arith(out, u):
    """no undefined arithmetic, unreachable code, assertion, and no influence
    of uninitialised memory"""
    bads = []
    for e in u.c.events:
        if e.kind.startswith(("write to", "oob-", "null-deref", "wild-deref")):
            continue
        bads.append((list(e.pc) + [e.cond], e))
    modes = ["ubsan"] if not u.cfg.debug else ["O0", "ubsan"]
    discharge(out, u, bads, "undefined", lambda e: "%s (%s:%s)" % (e.kind, e.fn, e.line),
              lambda u, env: access_lines(u, env, 1, ["noref"]), modes + ["O3"])
    # uninitialised locals
    for s in u.states:
        if s.status != "ret":
            continue
        if isinstance(u, Upd):
            # what later calls can see: state, counters, the pending bytes
            g = u.lay.get(u.c, s.mem[u.o.id])
            vals = list(g["s"]) + [g["partial"], g["total"]] + g["buf"][:(u.p + u.n) % 32]
        else:
            vals = u.values(s)
        ls = [x for x in bv.leaves(list(vals) + list(s.pc)) if x.op == "sym" and
              x.k.startswith("uninit_")]
        if not ls:
            continue
        ren = {x: sym(x.k + "'", x.w) for x in ls}
        v2 = bv.substitute(list(vals) + list(s.pc), ren)
        f = settle(out, list(zip(vals, v2)), u.c.assume + list(s.pc) + v2[len(vals):])
        if f:
            h = access_lines(u, f[2], 1)
            last = h[-1]
            if u.fn == "t1ha2_update":
                i = [k for k, x in enumerate(h) if x.startswith("init ")][0]
                g = h[:i] + ["ctx 1 0 2"] + [y for x in h[i:] for y in (
                    ["dirty 0", x, "dirty a5", x.replace(" 0", " 1", 1)]
                    if x.startswith(("init", "update", "final")) else [x])]
                ls = ["noref"] + g + ["same"]
            elif u.fn == "t1ha2_final":
                ls = ["noref"] + h[:-1] + ["copy 0 1", "dirty 0", last, "dirty a5",
                                           last.replace("final 0", "final 1"), "same"]
                ls.insert(1, "ctx 1 0 2")
            else:
                ls = ["noref"] + h[:-1] + ["dirty 0", last, "dirty a5", last, "same"]
            out.candidates.append(core.Candidate(
                "uninitialised memory", u.cfg.name, u.fn, "length %d" % u.n,
                native_replay(u.cfg, ls, ("O3", "O0", "O2", "msan")) if replay.native(u.cfg)
                else interp_replay(u.cfg, "script", lines=["noref"] + h, fill=0, fill2=0xA5)))


FEW = (0, 1, 5, 8, 16, 24, 27, 31)
OBS = {"page": ob_page, "range": ob_range, "align": ob_align, "pure": ob_pure, "arith": ob_arith}


def hash_task(out, cfg, fn, lens, obs):
    for n in lens:
        if core.timeleft() < 2:
            out.add("skipped")
            continue
        try:
            cs = calls(cfg, fn, n)
        except (sx.Unsupported, sx.Limit, sx.NeedSplit) as e:
            out.add("not encoded")
            out.note("not encoded: %s %s length %d: %s" % (cfg.name, fn, n, e))
            continue
        if n == 0:
            cs.append(Call(cfg, fn, 0, null=True))
        for u in cs:
            out.take(u.c, u.states)
            for o in obs:
                OBS[o](out, u)
            for s in u.states:
                if s.status == "ret" and len(out.traces) < 2 and not s.pc:
                    trace_of(out, u, s, u.values(s), envs_for(u)[2 + n % 6])
        if len(out.samples) < 1 and n > 3:
            acc = list(key_reads(cs[0]))[:3]
            out.samples.append({"config": cfg.name, "function": fn, "length": n,
                                "accesses": [bin_of(a) for _, _, _, a in acc],
                                "assumptions": [bv.pretty(x, 3)[:100] for x in cs[0].c.assume]})
        if len(out.candidates) >= 3:
            return


def upd_task(out, cfg, ps, ns, obs):
    for p in ps:
        for n in ns:
            if core.timeleft() < 2:
                out.add("skipped")
                continue
            us = upds(cfg, p, n)
            if n == 0:
                us.append(Upd(cfg, p, 0, null=True))
            for u in us:
                out.take(u.c, u.states)
                for o in obs:
                    OBS[o](out, u)
            if len(out.candidates) >= 3:
                return


def fin_task(out, cfg, ps, obs):
    for p in ps:
        for wide in (False, True):
            u = Fin(cfg, p, wide)
            out.take(u.c, u.states)
            for o in obs:
                if u.D is None and o in ("page", "range"):
                    continue
                OBS[o](out, u)
        if len(out.candidates) >= 3:
            return


def queue(ck, cfgs, fns, obs, lens, pieces, aes_lens=None, stream=True, aes_cfgs=None,
          ps=range(32)):
    sx.Ctx.dflt = False      # products stay as the code computes them
    for cfg in cfgs:
        if cfg.name not in core.PROGS:
            continue
        for fn in fns:
            if fn in AES:
                if not cfg.x86 or (aes_cfgs is not None and cfg not in aes_cfgs):
                    continue
                ls = aes_lens or range(0, 290)
            else:
                ls = range(0, lens + 1)
            for ch in chunks(ls, 16):
                ck.task("%s %s %d.." % (cfg.name, fn, ch[0]), hash_task, cfg=cfg, fn=fn, lens=ch,
                        obs=obs)
        if stream:
            for pp in chunks(ps, 4):
                ck.task("%s update %s" % (cfg.name, pp), upd_task, cfg=cfg, ps=pp, ns=pieces,
                        obs=obs)
            ck.task("%s final" % cfg.name, fin_task, cfg=cfg, ps=ps, obs=obs)
        ck.bounds.append("%s: %s lengths 0..%d%s at every address (page offset included)%s" % (
            cfg.name, ", ".join(f for f in fns if f not in AES), lens,
            "; AES variants %d..%d" % (ls[0], ls[-1]) if fns and fns[-1] in AES and cfg.x86 else "",
            "; update with %d numbers of pending bytes (0..31) and pieces %s..%s, final" % (
                len(ps), min(pieces), max(pieces)) if stream else ""))
