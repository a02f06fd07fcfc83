/* Runs a scenario (text file) against the real library and the reference.
 * Exit: 0 everything as it must be, 1 the library deviates, 2 bad scenario. */
#define _GNU_SOURCE
#include "ref.h"
#include "t1ha.h"
/* reduced builds lack some */
#pragma weak t1ha2_atonce
#pragma weak t1ha2_atonce128
#pragma weak t1ha2_init
#pragma weak t1ha2_update
#pragma weak t1ha2_final
#pragma weak t1ha1_le
#pragma weak t1ha1_be
#pragma weak t1ha0_32le
#pragma weak t1ha0_32be
#pragma weak t1ha0_ia32aes_noavx
#pragma weak t1ha0_ia32aes_avx
#pragma weak t1ha0_ia32aes_avx2
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>

#define PG 4096ul
#define NB 64
static struct {
  uint8_t *map, *p;
  uint64_t len, maplen;
} B[NB];
static t1ha_context_t *C[8];
static uint8_t *CM[8], CS[8][8192];
static ref_stream R[8];
static int bad, nres;
static uint64_t last[2][2];
static sigjmp_buf jb;
static volatile int ac_on;

static void ac(int on) {
#if defined(__x86_64__)
  if (on)
    __asm volatile("lea -128(%%rsp),%%rsp\n pushfq\n orq $0x40000,(%%rsp)\n popfq\n lea 128(%%rsp),%%rsp" ::: "memory", "cc");
  else
    __asm volatile("lea -128(%%rsp),%%rsp\n pushfq\n andq $~0x40000,(%%rsp)\n popfq\n lea 128(%%rsp),%%rsp" ::: "memory", "cc");
#elif defined(__i386__)
  if (on)
    __asm volatile("pushfl\n orl $0x40000,(%%esp)\n popfl" ::: "memory", "cc");
  else
    __asm volatile("pushfl\n andl $~0x40000,(%%esp)\n popfl" ::: "memory", "cc");
#endif
}

static volatile int sig;
static void handler(int s, siginfo_t *si, void *u) {
  (void)si;
  (void)u;
  ac(0);
  sig = s;
  siglongjmp(jb, 1);
}

static void fail(const char *what, const char *line) {
  printf("VIOLATED %s: %s", what, line);
  bad = 1;
}

/* access trace: the library is built with -fsanitize=kernel-address and
 * outlined checks, which call these for every load and store */
static int tr_range = -1, tr_align, tr_active;
#ifdef TRACE
static char tr_msg[200];
static void tr_load(uintptr_t a, size_t n, int bytewise) {
  if (!tr_active || tr_msg[0])
    return;
  if (tr_range >= 0) {
    uintptr_t lo = (uintptr_t)B[tr_range].map, hi = lo + (uintptr_t)B[tr_range].maplen;
    uintptr_t p = (uintptr_t)B[tr_range].p;
    if (a + n > lo && a < hi && (a < p || a + n > p + B[tr_range].len))
      snprintf(tr_msg, sizeof tr_msg, "%u-byte read at offset %ld of a %llu-byte key", (unsigned)n,
               (long)(a - p), (unsigned long long)B[tr_range].len);
  }
  if (tr_align && !bytewise && !tr_msg[0]) {
    size_t need = n > sizeof(size_t) ? sizeof(size_t) : n;
    if (a % need)
      snprintf(tr_msg, sizeof tr_msg, "%u-byte load from address = %u mod %u", (unsigned)n,
               (unsigned)(a % need), (unsigned)need);
  }
}
#define TL(n)                                                                                      \
  void __asan_load##n##_noabort(uintptr_t a) { tr_load(a, n, 0); }                                  \
  void __asan_store##n##_noabort(uintptr_t a) { (void)a; }
TL(1) TL(2) TL(4) TL(8) TL(16)
void __asan_loadN_noabort(uintptr_t a, size_t n) {
  /* odd sizes are byte-wise (packed) accesses */
  tr_load(a, n, 1);
}
void __asan_storeN_noabort(uintptr_t a, size_t n) { (void)a; (void)n; }
void __asan_handle_no_return(void) {}
void *tr_memcpy(void *d, const void *s, size_t n) {
  if (n)
    tr_load((uintptr_t)s, n, 1);
  return memmove(d, s, n);
}
#endif

/* leaves a known pattern below the stack pointer */
static int dirty = -1;
static __attribute__((noinline)) void dirt(void) {
  volatile uint8_t x[8192];
  if (dirty >= 0)
    for (size_t i = 0; i < sizeof x; i++)
      x[i] = (uint8_t)dirty;
}

static void before_call(void) {
  dirt();
  tr_active = 1;
}
static void after_call(const char *line) {
  tr_active = 0;
#ifdef TRACE
  if (tr_msg[0]) {
    fail(tr_msg, line);
    tr_msg[0] = 0;
  }
#else
  (void)line;
#endif
}

static uint64_t rnd(uint64_t *s) {
  uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

static void mk(int id, uint64_t len, unsigned low, unsigned before, unsigned after, uint64_t seed) {
  uint64_t pages = (low + (len ? len - 1 : 0)) / PG + 1;
  uint64_t total = (pages + before + after + 2) * PG;
  if (total > (size_t)-1 - 65536)
    exit(2);
  uint8_t *m = mmap(0, (size_t)total, PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED)
    exit(2);
  B[id].map = m;
  B[id].maplen = total;
  B[id].p = m + PG * (1 + before) + low;
  B[id].len = len;
  if (total < (64ul << 20)) {
    uint64_t s = seed;
    for (uint64_t i = PG; i < total - PG; i++)
      m[i] = seed ? (uint8_t)rnd(&s) : 0;
  }
  mprotect(m, PG, PROT_NONE);
  mprotect(m + total - PG, PG, PROT_NONE);
}

#define SELF(f) extern int f(void) __attribute__((weak));
SELF(t1ha_selfcheck__t1ha2_atonce)
SELF(t1ha_selfcheck__t1ha2_atonce128)
SELF(t1ha_selfcheck__t1ha2_stream)
SELF(t1ha_selfcheck__t1ha1_le)
SELF(t1ha_selfcheck__t1ha1_be)
SELF(t1ha_selfcheck__t1ha0_32le)
SELF(t1ha_selfcheck__t1ha0_32be)
SELF(t1ha_selfcheck__t1ha2)
SELF(t1ha_selfcheck__t1ha1)
static int selfcheck(const char *fn) {
#define SRUN(f) if (!strcmp(fn, #f)) return f ? f() : 77;
  SRUN(t1ha_selfcheck__t1ha2_atonce)
  SRUN(t1ha_selfcheck__t1ha2_atonce128)
  SRUN(t1ha_selfcheck__t1ha2_stream)
  SRUN(t1ha_selfcheck__t1ha1_le)
  SRUN(t1ha_selfcheck__t1ha1_be)
  SRUN(t1ha_selfcheck__t1ha0_32le)
  SRUN(t1ha_selfcheck__t1ha0_32be)
  SRUN(t1ha_selfcheck__t1ha2)
  SRUN(t1ha_selfcheck__t1ha1)
  return 78;
}

static uint64_t refhash(const char *fn, const void *p, uint64_t n, uint64_t s, uint64_t *x) {
#define T(f) if (!strcmp(fn, #f)) return ref_##f(p, n, s);
  T(t1ha2_atonce) T(t1ha1_le) T(t1ha1_be) T(t1ha0_32le) T(t1ha0_32be)
  T(t1ha0_ia32aes_noavx) T(t1ha0_ia32aes_avx) T(t1ha0_ia32aes_avx2)
  if (!strcmp(fn, "t1ha2_atonce128")) return ref_t1ha2_atonce128(x, p, n, s);
  exit(2);
}
#undef T
static uint64_t hash(const char *fn, const void *p, size_t n, uint64_t s, uint64_t *x) {
#define T(f) if (!strcmp(fn, #f)) return f(p, n, s);
  T(t1ha2_atonce) T(t1ha1_le) T(t1ha1_be) T(t1ha0_32le) T(t1ha0_32be)
#ifndef NO_AES
  T(t1ha0_ia32aes_noavx) T(t1ha0_ia32aes_avx) T(t1ha0_ia32aes_avx2)
#endif
  if (!strcmp(fn, "t1ha2_atonce128")) return t1ha2_atonce128(x, p, n, s);
  exit(2);
}

/* an operation on context id may change nothing but that context */
static void ctx_before(void) {
  for (int i = 0; i < 8; i++)
    if (C[i])
      memcpy(CS[i], CM[i], 8192);
}
static void ctx_after(int id, const char *line) {
  for (int i = 0; i < 8; i++)
    if (C[i]) {
      if (i == id)
        memcpy(CS[i] + ((uint8_t *)C[i] - CM[i]), C[i], sizeof(t1ha_context_t));
      if (memcmp(CS[i], CM[i], 8192))
        fail(i == id ? "memory around the context changed" : "another context changed", line);
    }
}

/* writable data of this program and the library */
extern char __data_start[], _end[];

int main(int argc, char **argv) {
  FILE *f = argc > 1 ? fopen(argv[1], "r") : stdin;
  static char line[1 << 16], a[64], hex[1 << 16];
  static stack_t ss;
  ss.ss_sp = malloc(1 << 16);
  ss.ss_size = 1 << 16;
  sigaltstack(&ss, 0);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = handler;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  sigaction(SIGSEGV, &sa, 0);
  sigaction(SIGBUS, &sa, 0);
  sigaction(SIGILL, &sa, 0);
  sigaction(SIGFPE, &sa, 0);
  sigaction(SIGTRAP, &sa, 0);
  sigaction(SIGABRT, &sa, 0);
  if (!f)
    return 2;
  ref_aes_setup();
  static int want_ac, norefs, snap, timeout_s = 120;
  alarm(timeout_s);
  char *snapshot = malloc(_end - __data_start);
  while (fgets(line, sizeof line, f)) {
    unsigned long long id, len, low, before, after, seed, sx, sy, times, off;
    long long soff;
    if (sigsetjmp(jb, 1)) {
      char w[64];
      snprintf(w, sizeof w, "signal %d", sig);
      fail(w, line);
      break;
    }
    if (sscanf(line, "buf %llu %llu %llu %llu %llu %llx", &id, &len, &low, &before, &after, &seed) == 6) {
      mk((int)id, len, (unsigned)low, (unsigned)before, (unsigned)after, seed);
    } else if (sscanf(line, "set %llu %lld %65000s", &id, &soff, hex) == 3) {
      for (size_t i = 0; hex[2 * i]; i++) {
        unsigned v;
        sscanf(hex + 2 * i, "%2x", &v);
        uint8_t *q = B[id].p + soff + (long long)i;
        if (q >= B[id].map + PG && q < B[id].map + B[id].maplen - PG)
          *q = (uint8_t)v;
      }
    } else if (sscanf(line, "range %llu", &id) == 1) {
      tr_range = (int)id;
    } else if (!strncmp(line, "align", 5)) {
      tr_align = 1;
    } else if (sscanf(line, "selfcheck %60s", a) == 1) {
      int r0 = selfcheck(a);
      printf("ret %d\n", r0);
    } else if (sscanf(line, "hash %60s %lld %llu %llx", a, &soff, &len, &seed) == 4) {
      /* soff: buffer id, or -1 for NULL */
      const uint8_t *p = soff < 0 ? 0 : B[soff].p;
      uint64_t x[3] = {0x1111, 0xDEADBEEFCAFEF00Dull, 0x2222}, rx = 0, r, e = 0;
      if (snap)
        memcpy(snapshot, __data_start, _end - __data_start);
      before_call();
      if (want_ac)
        ac(1);
      r = hash(a, p, (size_t)len, seed, x + 1);
      ac(0);
      after_call(line);
      int wide = !strcmp(a, "t1ha2_atonce128");
      if (snap && memcmp(snapshot, __data_start, _end - __data_start))
        fail("global data changed", line);
      if (!norefs) {
        e = refhash(a, p, len, seed, &rx);
        if (r != e || (wide && x[1] != rx))
          fail("value", line);
      }
      if (x[0] != 0x1111 || x[2] != 0x2222)
        fail("neighbour of extra_result changed", line);
      last[nres & 1][0] = r;
      last[nres & 1][1] = wide ? x[1] : 0;
      nres++;
      printf("ret %016llx %016llx\n", (unsigned long long)r, (unsigned long long)(wide ? x[1] : 0));
      if (bad && !norefs)
        printf("expected %016llx %016llx\n", (unsigned long long)e, (unsigned long long)rx);
    } else if (sscanf(line, "ctx %llu %llu %llx", &id, &low, &seed) == 3) {
      /* a context at an address congruent to low modulo 64, filled with garbage */
      uint8_t *m;
      uint64_t s = seed;
      if (posix_memalign((void **)&m, 4096, 8192))
        return 2;
      for (int i = 0; i < 8192; i++)
        m[i] = (uint8_t)rnd(&s);
      C[id] = (t1ha_context_t *)(m + 1024 + low);
      CM[id] = m;
    } else if (sscanf(line, "fillctx %llu %65000s", &id, hex) == 2) {
      for (size_t i = 0; hex[2 * i] && i < sizeof(t1ha_context_t); i++) {
        unsigned v;
        sscanf(hex + 2 * i, "%2x", &v);
        ((uint8_t *)C[id])[i] = (uint8_t)v;
      }
    } else if (sscanf(line, "init %llu %llx %llx", &id, &sx, &sy) == 3) {
      ctx_before();
      before_call();
      if (want_ac)
        ac(1);
      t1ha2_init(C[id], sx, sy);
      ac(0);
      ctx_after((int)id, line);
      after_call(line);
      ref_init(&R[id], sx, sy);
    } else if (sscanf(line, "update %llu %lld %lld %llu %llu", &id, &soff, (long long *)&off, &len,
                      &times) == 5) {
      const uint8_t *p = soff < 0 ? 0 : B[soff].p + (long long)off;
      ctx_before();
      for (; times; times--) {
        if (snap)
          memcpy(snapshot, __data_start, _end - __data_start);
        before_call();
        if (want_ac)
          ac(1);
        t1ha2_update(C[id], p, (size_t)len);
        ac(0);
        after_call(line);
        if (snap && memcmp(snapshot, __data_start, _end - __data_start))
          fail("global data changed", line);
        if (!norefs)
          ref_update(&R[id], p, len);
      }
      ctx_after((int)id, line);
    } else if (sscanf(line, "copy %llu %llu", &id, &low) == 2) {
      memcpy(C[low], C[id], sizeof(t1ha_context_t));
      R[low] = R[id];
    } else if (sscanf(line, "scrub %llu", &id) == 1) {
      memset(C[id], 0xA5, sizeof(t1ha_context_t));
    } else if (sscanf(line, "final %llu %llu", &id, &low) == 2) {
      uint64_t x[3] = {0x1111, 0xDEADBEEFCAFEF00Dull, 0x2222}, rx = 0, r, e = 0;
      if (snap)
        memcpy(snapshot, __data_start, _end - __data_start);
      ctx_before();
      before_call();
      if (want_ac)
        ac(1);
      r = t1ha2_final(C[id], low ? x + 1 : 0);
      ac(0);
      ctx_after((int)id, line);
      after_call(line);
      if (snap && memcmp(snapshot, __data_start, _end - __data_start))
        fail("global data changed", line);
      if (!norefs) {
        ref_stream t = R[id];
        e = ref_final(&t, low ? &rx : 0);
        if (r != e || (low && x[1] != rx))
          fail("value", line);
      }
      if (x[0] != 0x1111 || x[2] != 0x2222 || (!low && x[1] != 0xDEADBEEFCAFEF00Dull))
        fail("memory near extra_result changed", line);
      last[nres & 1][0] = r;
      last[nres & 1][1] = low ? x[1] : 0;
      nres++;
      printf("ret %016llx %016llx\n", (unsigned long long)r, (unsigned long long)(low ? x[1] : 0));
      if (bad && !norefs)
        printf("expected %016llx %016llx\n", (unsigned long long)e, (unsigned long long)rx);
    } else if (!strncmp(line, "same", 4)) {
      if (last[0][0] != last[1][0] || last[0][1] != last[1][1])
        fail("two calls that must agree differ", line);
    } else if (!strncmp(line, "differ", 6)) {
      if (last[0][0] == last[1][0] && last[0][1] == last[1][1])
        fail("two calls that must differ agree", line);
    } else if (!strncmp(line, "ctxdiffer", 9)) {
      if (!memcmp(&C[0]->state, &C[1]->state, sizeof C[0]->state))
        fail("contexts agree", line);
    } else if (sscanf(line, "freeze %llu", &id) == 1) {
      mprotect(B[id].map + PG, (size_t)(B[id].maplen - 2 * PG), PROT_READ);
    } else if (sscanf(line, "dirty %llx", &id) == 1) {
      dirty = (int)id;
    } else if (!strncmp(line, "ac", 2)) {
      want_ac = 1;
    } else if (!strncmp(line, "noref", 5)) {
      norefs = 1;
    } else if (!strncmp(line, "snap", 4)) {
      snap = 1;
    } else if (sscanf(line, "alarm %llu", &id) == 1) {
      alarm((unsigned)id);
    } else if (line[0] != '#' && line[0] != '\n') {
      printf("bad line: %s", line);
      return 2;
    }
    fflush(stdout);
  }
  return bad;
}
