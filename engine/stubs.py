"""Stand-ins at the boundary of a hash: recorded inputs, arbitrary results, and
an arbitrary CPU behind CPUID."""
from . import bv, sx, spec
from .bv import const, sym, eq, and_, or_, not_, ule

PORT = ("t1ha2_atonce", "t1ha2_atonce128", "t1ha1_le", "t1ha1_be", "t1ha0_32le", "t1ha0_32be")
AES = ("t1ha0_ia32aes_noavx", "t1ha0_ia32aes_avx", "t1ha0_ia32aes_avx2")
STREAM = ("stream", "stream128")
PROBES = spec.probes()
WHICH = {p: i for i, p in enumerate(PROBES)}
_ref = {}


def ref(name, i, w):
    """(low, high) of the specification on probe i"""
    k = (name, i, w)
    if k not in _ref:
        d, s = PROBES[i]
        r = spec.hash_concrete(name, d, s, w=w)
        _ref[k] = (r[0], r[1] if len(r) > 1 else 0)
    return _ref[k]


# ------------------------------------------------------------ CPUID

MAX = "cpuid_max"


def reg(leaf, sub, r):
    if leaf == 0 and r == "a":
        return sym(MAX, 32)
    return sym("cpuid_%x_%x_%s" % (leaf, sub, r), 32)


def bits(x, m):
    return eq(bv.and_(x, const(m, x.w)), const(m, x.w))


def usable():
    """documented conditions: {variant: term}"""
    one = ule(const(1, 32), sym(MAX, 32))
    sev = ule(const(7, 32), sym(MAX, 32))
    aes = bv.conj([one, bits(reg(1, 0, "c"), 0x02000000)])
    avx = bv.conj([aes, bits(reg(1, 0, "c"), 0x1A000000)])
    avx2 = bv.conj([avx, sev, bits(reg(7, 0, "b"), 0x20)])
    return dict(zip(AES, (aes, avx, avx2)))


def cpuid_asm(ctx, st, fr, ins, code, cons, av):
    if "cpuid" in code:
        if av[0].op != "const" or len(av) > 1 and av[1].op != "const":
            raise sx.Unsupported("cpuid of a computed leaf")
        leaf, sub = av[0].k, av[1].k if len(av) > 1 else 0
        return tuple(reg(leaf, sub, r) for r in "abcd")
    if "pushf" in code:
        return const(1, 32)
    raise sx.Unsupported("inline asm " + code[:40])


def cpuid_max(ctx, st, fr, ins, av):
    if av[0].op != "const" or av[0].k & 0x7fffffff:
        raise sx.Unsupported("cpuid level")
    if av[0].k:
        return sym("cpuid_extmax", 32)
    if not (av[1].op == "const" and av[1].k == 0):
        ctx.write(st, av[1], reg(0, 0, "b"), ins, 4)
    return sym(MAX, 32)


CPU = {"asm": cpuid_asm, "__get_cpuid_max": cpuid_max}


def cpu_of(env):
    """register values of an assignment"""
    return {k: v & 0xffffffff for k, v in env.syms.items() if k.startswith("cpuid_")}


def fake_header(vals):
    """<cpuid.h> of a CPU with these registers; 0 elsewhere"""
    s = ["#pragma once", "#define bit_AES 0x02000000", "#define bit_AVX 0x10000000",
         "#define bit_OSXSAVE 0x08000000", "#define bit_AVX2 0x20",
         "static __inline unsigned fake_cpuid(unsigned l, unsigned s, int r) {",
         "  (void)l; (void)s; (void)r;"]
    for k, v in sorted(vals.items()):
        x = k.split("_")
        if k == MAX:
            s.append("  if (l == 0 && r == 0) return 0x%xu;" % v)
        elif len(x) == 4:
            s.append("  if (l == 0x%su && s == 0x%su && r == %d) return 0x%xu;" %
                     (x[1], x[2], "abcd".index(x[3]), v))
    s += ["  return 0; }",
          "#define __cpuid_count(l, s, a, b, c, d) do { a = fake_cpuid(l, s, 0); "
          "b = fake_cpuid(l, s, 1); c = fake_cpuid(l, s, 2); d = fake_cpuid(l, s, 3); } while (0)",
          "#define __cpuid(l, a, b, c, d) __cpuid_count(l, 0, a, b, c, d)",
          "static __inline unsigned __get_cpuid_max(unsigned e, unsigned *s) {",
          "  if (s) *s = fake_cpuid(e, 0, 1); return fake_cpuid(e, 0, 0); }",
          "static __inline int __get_cpuid_count(unsigned l, unsigned s, unsigned *a, unsigned *b, "
          "unsigned *c, unsigned *d) {",
          "  unsigned m = __get_cpuid_max(l & 0x80000000u, 0); if (!m || m < l) return 0;",
          "  __cpuid_count(l, s, *a, *b, *c, *d); return 1; }",
          "static __inline int __get_cpuid(unsigned l, unsigned *a, unsigned *b, unsigned *c, "
          "unsigned *d) { return __get_cpuid_count(l, 0, a, b, c, d); }"]
    return "\n".join(s) + "\n"


# ------------------------------------------------------------ recorded inputs

class Bench:
    """hash stand-ins for one configuration.  On a documented probe each
    returns an arbitrary value, on any other input the specified one."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.w = cfg.bits
        self.hist = []              # streaming records (seeds, bytes)
        self.ran = []               # (AES variant, path condition, line)
        self.asked = set()

    def rval(self, name, i):
        self.asked.add((name, i))
        return sym("r_%s_%d" % (name, i), 64)

    def value(self, name, data, seed):
        i = WHICH.get((data, seed))
        if i is not None:
            return self.rval(name, i), sym("h_%s_%d" % (name, i), 64)
        r = spec.hash_concrete(name, data, seed, w=self.w)
        return const(r[0], 64), const(r[1] if len(r) > 1 else 0, 64)

    def bytes_at(self, ctx, st, p, n, ins):
        if n.op != "const":
            raise sx.Unsupported("stub: length not constant")
        if n.k == 0:
            return b""
        d = ctx.addr(st, p, ins)
        if d is None:
            raise sx.Unsupported("stub: bad pointer")
        oid, off = d[0], d[1]
        if not isinstance(off, int):
            if off.op != "const":
                raise sx.Unsupported("stub: address not constant")
            off = off.k
        o = ctx.getobj(st, oid)
        out = []
        for j in range(n.k):
            b = ctx.byte_at(o, off + j)
            if b.op != "const":
                raise sx.Unsupported("stub: key byte not constant")
            out.append(b.k)
        return bytes(out)

    def seed_of(self, s):
        if s.op != "const":
            raise sx.Unsupported("stub: seed not constant")
        return s.k

    def hooks(self):
        h = dict(CPU)

        def plain(name):
            def f(ctx, st, fr, ins, av):
                if name in AES:
                    self.ran.append((name, st.pc, getattr(ins, "line", "")))
                return self.value(name, self.bytes_at(ctx, st, av[0], av[1], ins),
                                  self.seed_of(av[2]))[0]
            return f
        for n in PORT + AES:
            h[n] = plain(n)

        def wide(ctx, st, fr, ins, av):
            lo, hi = self.value("t1ha2_atonce128", self.bytes_at(ctx, st, av[1], av[2], ins),
                                self.seed_of(av[3]))
            ctx.write(st, av[0], hi, ins, 8)
            return lo
        h["t1ha2_atonce128"] = wide

        def init(ctx, st, fr, ins, av):
            self.hist.append((self.seed_of(av[1]), self.seed_of(av[2]), b""))
            ctx.write(st, av[0], const(len(self.hist) - 1, 64), ins, 8)

        def rec(ctx, st, p, ins):
            k = ctx.read(st, p, 8, ins, 8)
            if k is None or k.op != "const" or k.k >= len(self.hist):
                raise sx.Unsupported("stub: unknown context")
            return self.hist[k.k]

        def update(ctx, st, fr, ins, av):
            a, b, d = rec(ctx, st, av[0], ins)
            d += self.bytes_at(ctx, st, av[1], av[2], ins)
            self.hist.append((a, b, d))
            ctx.write(st, av[0], const(len(self.hist) - 1, 64), ins, 8)

        def final(ctx, st, fr, ins, av):
            a, b, d = rec(ctx, st, av[0], ins)
            null = av[1].op == "const" and av[1].k == 0
            if a != b:
                r = spec.hash_concrete("stream" if null else "stream128", d, a, b)
                v = const(r[0], 64), const(0 if null else r[1], 64)
            else:
                v = self.value("stream" if null else "stream128", d, a)
            if not null:
                ctx.write(st, av[1], v[1], ins, 8)
            return v[0]
        h["t1ha2_init"], h["t1ha2_update"], h["t1ha2_final"] = init, update, final
        return h


def run_selfcheck(bench, prog, fn):
    """-> (ctx, end states)"""
    c = sx.Ctx(prog, hooks=bench.hooks())
    st = c.start(fn, [])
    return c, c.run(st)


# ------------------------------------------------------------ native stand-ins

def stub_source(w, wrong, banned, names):
    """C file with __wrap_ functions; wrong: {(name, i): value}"""
    s = ["#include <stdint.h>", "#include <string.h>", "#include <stdio.h>", "#include <stdlib.h>",
         "struct ent { const char *name; unsigned n; const unsigned char *d; uint64_t seed, lo, hi; };"]
    for i, (d, _) in enumerate(PROBES):
        s.append("static const unsigned char p%d[] = {%s};" %
                 (i, ",".join(map(str, d)) or "0"))
    s.append("static const struct ent T[] = {")
    for n in names:
        for i, (d, sd) in enumerate(PROBES):
            lo, hi = ref(n, i, w)
            lo = wrong.get((n, i), lo)
            s.append('{"%s", %d, p%d, 0x%xull, 0x%xull, 0x%xull},' % (n, len(d), i, sd, lo, hi))
    s.append("{0, 0, 0, 0, 0, 0}};")
    s.append("""
static const struct ent *find(const char *name, const void *d, size_t n, uint64_t seed) {
  for (const struct ent *e = T; e->name; e++)
    if (e->n == n && e->seed == seed && !strcmp(e->name, name) && (!n || !memcmp(e->d, d, n)))
      return e;
  return 0;
}
static void ran(const char *name) { (void)name;""")
    for b in banned:
        s.append('  if (!strcmp(name, "%s")) { printf("runs %%s on a CPU without it\\n", name); '
                 'fflush(stdout); _Exit(1); }' % b)
    s.append("}")
    for n in names:
        if n in STREAM or n == "t1ha2_atonce128":
            continue
        s.append("""
uint64_t __real_%(n)s(const void *, size_t, uint64_t);
uint64_t __wrap_%(n)s(const void *d, size_t n, uint64_t s) {
  ran("%(n)s");
  const struct ent *e = find("%(n)s", d, n, s);
  return e ? e->lo : __real_%(n)s(d, n, s);
}""" % {"n": n})
    if "t1ha2_atonce128" in names:
        s.append("""
uint64_t __real_t1ha2_atonce128(uint64_t *, const void *, size_t, uint64_t);
uint64_t __wrap_t1ha2_atonce128(uint64_t *x, const void *d, size_t n, uint64_t s) {
  const struct ent *e = find("t1ha2_atonce128", d, n, s);
  if (!e) return __real_t1ha2_atonce128(x, d, n, s);
  *x = e->hi; return e->lo;
}""")
    if "stream" in names:
        s.append("""
void __real_t1ha2_init(void *, uint64_t, uint64_t);
void __real_t1ha2_update(void *, const void *, size_t);
uint64_t __real_t1ha2_final(void *, uint64_t *);
static struct rec { uint64_t a, b; size_t n; unsigned char d[4096]; } R[4096];
static uint64_t nrec;
void __wrap_t1ha2_init(void *c, uint64_t a, uint64_t b) {
  if (nrec >= 4096) exit(2);
  R[nrec].a = a; R[nrec].b = b; R[nrec].n = 0;
  memcpy(c, &nrec, 8); nrec++;
}
static struct rec *rec(void *c) { uint64_t k; memcpy(&k, c, 8); if (k >= nrec) exit(2); return &R[k]; }
void __wrap_t1ha2_update(void *c, const void *d, size_t n) {
  struct rec *r = rec(c);
  if (nrec >= 4096 || r->n + n > sizeof r->d) exit(2);
  R[nrec] = *r; r = &R[nrec];
  if (n) memcpy(r->d + r->n, d, n);
  r->n += n; memcpy(c, &nrec, 8); nrec++;
}
uint64_t __wrap_t1ha2_final(void *c, uint64_t *x) {
  struct rec *r = rec(c);
  const struct ent *e = r->a == r->b ? find(x ? "stream128" : "stream", r->d, r->n, r->a) : 0;
  if (!e) {
    uint64_t t[32];
    __real_t1ha2_init(t, r->a, r->b);
    __real_t1ha2_update(t, r->d, r->n);
    return __real_t1ha2_final(t, x);
  }
  if (x) *x = e->hi;
  return e->lo;
}""")
    return "\n".join(s) + "\n"


def wraps(names):
    ws = [n for n in names if n not in STREAM]
    if "stream" in names:
        ws += ["t1ha2_init", "t1ha2_update", "t1ha2_final"]
    return " ".join("-Wl,--wrap=" + n for n in ws)


def build_lines(cfg, main, extra=(), link="", cpu=False):
    """shell: build /repo's sources and the given files into $W/prog"""
    cc = "gcc" if cfg.gcc else "clang"
    fl = " ".join("'%s'" % f if any(c in f for c in "() ") else f for f in cfg.gcc_flags())
    if not cfg.gcc:
        fl = fl.replace("-std=c11", "-std=gnu11")
    inc = "-I\"$H/fake\" " if cpu else ""
    m = "-m32 " if cfg.target == "m32" else ""
    s = ["for f in \"$R\"/src/*.c; do b=$(basename \"$f\" .c); x=''",
         "  case $b in *ia32aes*noavx) x='-mno-avx2 -mno-avx -maes';; "
         "*ia32aes*avx2) x='-mavx2 -mavx -maes';; *ia32aes*avx) x='-mno-avx2 -mavx -maes';; "
         "*ia32aes*) x='-maes';; esac",
         "  %s %s $x %s-I\"$R\" -c \"$f\" -o \"$W/$b.o\" || exit 2" % (cc, fl, inc), "done"]
    if cpu:
        s.insert(0, "mkdir -p \"$W/x\"; rm -rf \"$W/x\"; mkdir -p \"$H/fake\" && "
                    "cp \"$H/fakecpuid.h\" \"$H/fake/cpuid.h\" || exit 2")
    src = " ".join("\"$H/%s\"" % x for x in (main,) + tuple(extra))
    mac = " ".join(cfg.macro_flags())
    s.append("%s %s-std=gnu11 -w -O1 %s %s-I\"$R\" %s \"$W\"/*.o %s -o \"$W/prog\" || exit 2" %
             (cc, m, mac, inc, src, link))
    return "\n".join(s) + "\n"
