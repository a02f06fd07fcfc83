"""Independence of the key's place and surroundings, as a relation between two
runs of the code (no reference value involved)."""
from .oblig import *


def local(u, nodes, tag):
    """rename: key bytes to K[i]; address and every byte outside the key to
    symbols of this run"""
    sh = u.low[1] if u.low else 0
    w, n = u.w, u.n
    m = {}
    amb = []
    for x in bv.leaves(list(nodes)):
        if x.op == "sel" and x.k == "M":
            o = x.args[0]
            if o.op == "const":
                k = signed((o.k - sh) & bv.mask(w), w)
                m[x] = bv.sel("K", const(k, w)) if 0 <= k < n else \
                    bv.sel("M" + tag, const(k, w))
            else:
                raise sx.Unsupported("symbolic key offset")
        elif x.op == "sym" and (x.k in ("D", "Dh") or x.k.startswith(("addr_", "uninit_"))):
            m[x] = sym(x.k + tag, x.w)
    return bv.substitute(list(nodes), m), bool(m and any(
        not (y.op == "sel" and y.k == "K") for y in m.values()))


def variants(us, vals):
    out = []
    for u in us:
        for s in u.states:
            if s.status != "ret":
                continue
            out.append((u, vals(u, s), u.c.assume + list(s.pc)))
    return out


def place(e, u, tag, buf):
    """lines that lay the key out as run `tag` of the assignment has it"""
    n, w = u.n, u.w
    if u.low:
        d = (e.syms.get("Dh" + tag, 4096) << u.low[0]) + u.low[1]
    else:
        d = e.syms.get("D" + tag, 4096)
    t = eqv.Env()
    for i in range(n):
        t.mem[("M", i)] = e.byte("K", i)
    for (a, o), v in e.mem.items():
        if a == "M" + tag:
            t.mem[("M", o)] = v
    return ["buf %d %d %d 1 1 %x" % (buf, n, d & 4095, 0x5eed + buf)] + \
        replay.set_lines(t.mem, n, buf=buf, w=w)


def closed(u, nodes):
    """only key bytes, seed and streaming state are mentioned"""
    sh = u.low[1] if u.low else 0
    for x in bv.leaves(list(nodes)):
        if x.op == "sel" and x.k == "M":
            o = x.args[0]
            if o.op != "const" or not 0 <= signed((o.k - sh) & bv.mask(u.w), u.w) < u.n:
                return False
        elif x.op == "sym" and (x.k in ("D", "Dh") or x.k.startswith(("addr_", "uninit_"))):
            return False
    return True


def pair_envs(u0, u, e, seeds=6):
    """two placements of one key: simple ones beside the one an assignment has"""
    w, n = u.w, u.n
    d0 = 0x5000 if w == 32 else 0x7f0000005000
    out = []
    for i, k in enumerate((0, 1, 4, 3, 4095, 4092, 4088, 2)):
        x = eqv.Env(seed=4000 + i)
        if e is not None:
            # the failing assignment is the second run
            for (a, o), v in e.mem.items():
                if a == "M":
                    j = signed((o - (u.low[1] if u.low else 0)) & bv.mask(w), w)
                    if 0 <= j < n:
                        x.mem[("K", j)] = v
                    else:
                        x.mem[("M2", j & bv.mask(w))] = v
                else:
                    x.mem[(a, o)] = v
            for s, v in e.syms.items():
                x.syms[s + "2" if s in ("D", "Dh") else s] = v
        x.syms["D1"] = d0 + k
        x.syms["Dh1"] = (d0 >> 3) + 512 * i
        out.append(x)
    return out


def compare(out, cfg, fn, n, vs, sps, mk, text, fast=True):
    """every variant has a value made of nothing but key, seed and state; or
    else equals the first variant, and itself, under another placement"""
    doubt = []
    for (u, v, pc), sp in zip(vs, sps):
        if closed(u, v):
            for _ in v:
                smt.check([bv.FALSE])
            if len(vs) == 1:
                out.add("proved")
                continue
        r = None
        for a, b in zip(v, sp):
            r = eqv.equal(a, b, pc, 8000 if fast else 1500, envs_for(u),
                          deadline=core.DEADLINE[0])
            if r.status != "proved":
                break
        if r is not None and r.status == "proved":
            out.add("proved")
        else:
            doubt.append((u, v, pc, r.env if r is not None else None))
    if not doubt:
        return True
    # the value is not the published one: compare the code with itself
    u0, v0, p0 = vs[0]
    k = len(v0)
    base = local(u0, v0 + p0, "1")[0]
    for u, v, pc, e in doubt[:3]:
        other = local(u, v + pc, "2")[0]
        if all(a is b for a, b in zip(base[:k], other[:k])):
            smt.check([bv.FALSE])
            out.add("proved")
            continue
        es = pair_envs(u0, u, e) + pair_envs(u0, u, None) + eqv.page_envs("D2", u.w, u.n)
        for a, b in zip(base[:k], other[:k]):
            r = eqv.equal(a, b, base[k:] + other[k:], 2500, es, deadline=core.DEADLINE[0])
            if r.status == "cex":
                out.add("cex")
                out.candidates.append(core.Candidate(
                    "placement matters", cfg.name, fn, text,
                    native_replay(cfg, mk(r.env, u0, u)) if replay.native(cfg) else None))
                return False
            out.add(r.status)
    return False


def hash_lines2(e, u0, u):
    return ["noref"] + place(e, u0, "1", 0) + place(e, u, "2", 1) + \
        ["hash %s %d %d %x" % (u.fn, b, u.n, e.syms.get("seed", 0)) for b in (0, 1)] + ["same"]


def at_task(out, cfg, fn, lens):
    fast = True
    for n in lens:
        if core.timeleft() < 2:
            out.add("skipped")
            continue
        try:
            us = calls(cfg, fn, n)
        except (sx.Unsupported, sx.Limit, sx.NeedSplit) as e:
            out.add("not encoded")
            out.note("not encoded: %s %s length %d: %s" % (cfg.name, fn, n, e))
            continue
        for u in us:
            out.take(u.c, u.states)
        vs = variants(us, lambda u, s: u.values(s))
        if vs:
            sps = {u: u.spec() for u in us}
            if not compare(out, cfg, fn, n, vs, [sps[v[0]] for v in vs], hash_lines2,
                           "length %d" % n, fast):
                fast = False
        for u in us[:1]:
            for s in u.states[:1]:
                trace_of(out, u, s, u.values(s), envs_for(u)[2 + n % 6])
        if len(out.candidates) >= 3:
            return


def st_task(out, cfg, ps, ns):
    fast = True
    for p in ps:
        for n in ns:
            if core.timeleft() < 2:
                out.add("skipped")
                continue
            us = upds(cfg, p, n)
            for u in us:
                out.take(u.c, u.states)

            def vals(u, s):
                g = u.lay.get(u.c, s.mem[u.o.id])
                return list(g["s"]) + [g["partial"], g["total"]] + g["buf"][:(p + n) % 32]
            vs = variants(us, vals)
            if not vs:
                continue

            def mk(e, u0, u):
                pend = bytes(e.byte("B", i) for i in range(p))
                ls = ["noref", "ctx 0 0 1", "ctx 1 64 2", "ctx 2 0 3", "ctx 3 0 4",
                      "buf 4 33 3 1 1 7"] + (["set 4 0 " + pend.hex()] if p else [])
                ls += place(e, u0, "1", 0) + place(e, u, "2", 1)
                for c in (0, 1):
                    ls += ["init %d 5 6" % c] + (["update %d 4 0 %d 1" % (c, p)] if p else []) + \
                        ["update %d %d 0 %d 1" % (c, c, n), "copy %d %d" % (c, c + 2)]
                return ls + ["final 0 0", "final 1 0", "same", "final 2 1", "final 3 1", "same"]
            def meaning(u):
                a = u.spec()
                k = (p + n) % 32
                return list(a.s) + [const(k, u.lay.psize * 8), a.total] + list(a.pend[:k])
            sps = {u: meaning(u) for u in us}
            if not compare(out, cfg, "t1ha2_update", n, vs, [sps[v[0]] for v in vs], mk,
                           "%d pending bytes, piece %d" % (p, n), fast):
                fast = False
        if len(out.candidates) >= 3:
            return


def canary12(out, cfg):
    u = Call(cfg, "t1ha2_atonce", 13)
    s = u.states[0]
    v = bv.xor(s.value, bv.zext(bv.sel("M", const(13, u.w)), 64))
    o = core.Out()
    compare(o, cfg, "canary", 13, [(u, [v], u.c.assume)], [u.spec()], hash_lines2, "")
    v = bv.xor(s.value, bv.zext(u.D, 64))
    compare(o, cfg, "canary", 13, [(u, [v], u.c.assume)], [u.spec()], hash_lines2, "")
    out.add("canary refuted" if o.count.get("cex") == 2 else "canary NOT refuted")


def run(ck):
    base = [C("x64"), C("m32")]
    opts = [C(t, U=u) for t in ("x64", "m32") for u in (0, 1)] + \
        [C("x64", U=0, O=0), C("m32", U=1, O=0), C("x64", O=0), C("x64", gcc=False)]
    ck.build(base + opts)
    preludes(ck, base + opts)
    t = ck.thorough()
    for cfg in base + opts:
        fns = ATONCE + AES if cfg in base else ATONCE
        top = (130 if cfg in base else 66) * (3 if t else 1)
        for fn in fns:
            ls = range(0, top + 1) if fn not in AES else range(0, 290 if not t else 700)
            for ch in chunks(ls, 16):
                ck.task("%s %s %d.." % (cfg.name, fn, ch[0]), at_task, cfg=cfg, fn=fn, lens=ch)
        ps = range(32) if cfg in base or t else FEW
        np = 70 if cfg in base else 40
        for pp in chunks(ps, 4):
            ck.task("%s update %s" % (cfg.name, pp), st_task, cfg=cfg, ps=pp,
                    ns=range(1, np * (2 if t else 1)))
        ck.bounds.append("%s: lengths 0..%d%s, update with %d numbers of pending bytes and pieces "
                         "up to %d: two placements with arbitrary addresses and arbitrary bytes "
                         "around the key" % (cfg.name, top, ", AES variants 0..%d" % (
                             289 if not t else 699) if cfg in base else "", len(ps), np))
    ck.task("canary", canary12, cfg=base[0])
    ck.go()
    ck.validate()
    ck.confirm()
