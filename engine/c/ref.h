/* Independent reference of the t1ha hashes (byte-wise loads, software AES).
 * It takes nothing from the code under test. */
#ifndef T1HA_REF_H
#define T1HA_REF_H
#include <stddef.h>
#include <stdint.h>
#include <string.h>

static const uint64_t RP[7] = {
    0xEC99BF0D8372CAABull, 0x82434FE90EDCEF39ull, 0xD4F06DB99D67BE4Bull, 0xBD9CACC22C6E9571ull,
    0x9C06FAF4D023E3ABull, 0xC060724A8424F345ull, 0xCB5AF53AE3AAAC31ull};
static const uint32_t RP32[7] = {0x92D78269u, 0xCA9B4735u, 0xA4ABA1C3u, 0xF6499843u,
                                 0x86F0FD61u, 0xCA2DA6FBu, 0xC4BB3575u};

static uint64_t ref_ror(uint64_t v, unsigned s) { return (v >> s) | (v << (64 - s)); }
static uint32_t ref_ror32(uint32_t v, unsigned s) { return (v >> s) | (v << (32 - s)); }

static uint64_t ref_get(const uint8_t *p, unsigned n, int be) {
  uint64_t r = 0;
  for (unsigned i = 0; i < n; i++)
    r = r << 8 | p[be ? i : n - 1 - i];
  return r;
}

static uint64_t ref_hi(uint64_t x, uint64_t y) {
  uint64_t xl = (uint32_t)x, xh = x >> 32, yl = (uint32_t)y, yh = y >> 32;
  uint64_t m = xl * yh + (xl * yl >> 32);
  uint64_t n = xh * yl + (uint32_t)m;
  return xh * yh + (m >> 32) + (n >> 32);
}

static void ref_mix(uint64_t *x, uint64_t *y, uint64_t v, int k) {
  uint64_t t = *y + v;
  *x ^= t * RP[k];
  *y += ref_hi(t, RP[k]);
}

static uint64_t ref_mux(uint64_t v, int k) { return v * RP[k] ^ ref_hi(v, RP[k]); }

static uint64_t ref_fin64(uint64_t a, uint64_t b) {
  return ref_mux((a + ref_ror(b, 41)) * RP[0] ^ (ref_ror(a, 23) + b) * RP[6], 5);
}

typedef struct {
  uint64_t a, b, c, d;
} ref_st;

static void ref_t2_init(ref_st *s, uint64_t x, uint64_t y) {
  s->a = x;
  s->b = y;
  s->c = ref_ror(y, 23) + ~x;
  s->d = ~y + ref_ror(x, 19);
}

static void ref_t2_block(ref_st *s, const uint8_t *p) {
  uint64_t w0 = ref_get(p, 8, 0), w1 = ref_get(p + 8, 8, 0), w2 = ref_get(p + 16, 8, 0),
           w3 = ref_get(p + 24, 8, 0);
  uint64_t d02 = w0 + ref_ror(w2 + s->d, 56), c13 = w1 + ref_ror(w3 + s->c, 19);
  s->d ^= s->b + ref_ror(w1, 38);
  s->c ^= s->a + ref_ror(w0, 57);
  s->b ^= RP[6] * (c13 + w2);
  s->a ^= RP[5] * (d02 + w3);
}

static uint64_t ref_t2_ab(uint64_t a, uint64_t b, const uint8_t *p, size_t n) {
  if (n > 24) { ref_mix(&a, &b, ref_get(p, 8, 0), 4); p += 8; n -= 8; }
  if (n > 16) { ref_mix(&b, &a, ref_get(p, 8, 0), 3); p += 8; n -= 8; }
  if (n > 8) { ref_mix(&a, &b, ref_get(p, 8, 0), 2); p += 8; n -= 8; }
  if (n) ref_mix(&b, &a, ref_get(p, (unsigned)n, 0), 1);
  return ref_fin64(a, b);
}

static uint64_t ref_t2_abcd(const ref_st *s, const uint8_t *p, size_t n, uint64_t *x) {
  uint64_t a = s->a, b = s->b, c = s->c, d = s->d;
  if (n > 24) { ref_mix(&a, &d, ref_get(p, 8, 0), 4); p += 8; n -= 8; }
  if (n > 16) { ref_mix(&b, &a, ref_get(p, 8, 0), 3); p += 8; n -= 8; }
  if (n > 8) { ref_mix(&c, &b, ref_get(p, 8, 0), 2); p += 8; n -= 8; }
  if (n) ref_mix(&d, &c, ref_get(p, (unsigned)n, 0), 1);
  ref_mix(&a, &b, ref_ror(c, 41) ^ d, 0);
  ref_mix(&b, &c, ref_ror(d, 23) ^ a, 6);
  ref_mix(&c, &d, ref_ror(a, 19) ^ b, 5);
  ref_mix(&d, &a, ref_ror(b, 31) ^ c, 4);
  *x = c + d;
  return a ^ b;
}

static uint64_t ref_t2_squash_ab(ref_st *s, const uint8_t *p, size_t n) {
  uint64_t a = s->a ^ RP[6] * (s->c + ref_ror(s->d, 23));
  uint64_t b = s->b ^ RP[5] * (ref_ror(s->c, 19) + s->d);
  return ref_t2_ab(a, b, p, n);
}

static uint64_t ref_t1ha2_atonce(const void *data, uint64_t len, uint64_t seed) {
  const uint8_t *p = (const uint8_t *)data;
  ref_st s;
  if (len <= 32)
    return ref_t2_ab(seed, len, p, (size_t)len);
  ref_t2_init(&s, seed, len);
  for (; len >= 32; len -= 32, p += 32)
    ref_t2_block(&s, p);
  return ref_t2_squash_ab(&s, p, (size_t)len);
}

static uint64_t ref_t1ha2_atonce128(uint64_t *x, const void *data, uint64_t len, uint64_t seed) {
  const uint8_t *p = (const uint8_t *)data;
  ref_st s;
  ref_t2_init(&s, seed, len);
  if (len > 32)
    for (; len >= 32; len -= 32, p += 32)
      ref_t2_block(&s, p);
  return ref_t2_abcd(&s, p, (size_t)len, x);
}

typedef struct {
  ref_st s;
  uint8_t pend[64];
  unsigned n;
  uint64_t total;
} ref_stream;

static void ref_init(ref_stream *c, uint64_t sx, uint64_t sy) {
  memset(c, 0, sizeof(*c));
  ref_t2_init(&c->s, sx, sy);
}

static void ref_push(ref_stream *c, const uint8_t *p, uint64_t len) {
  while (len) {
    if (c->n == 0 && len >= 32) {
      ref_t2_block(&c->s, p);
      p += 32;
      len -= 32;
      continue;
    }
    c->pend[c->n++] = *p++;
    len--;
    if (c->n == 32) {
      ref_t2_block(&c->s, c->pend);
      c->n = 0;
    }
  }
}

static void ref_update(ref_stream *c, const void *p, uint64_t len) {
  c->total += len;
  ref_push(c, (const uint8_t *)p, len);
}

static uint64_t ref_final(ref_stream *c, uint64_t *x) {
  uint8_t bits[8];
  uint64_t v = (c->total << 3) ^ (1ull << 63);
  for (int i = 0; i < 8; i++)
    bits[i] = (uint8_t)(v >> (8 * i));
  ref_push(c, bits, 8);
  if (!x)
    return ref_t2_squash_ab(&c->s, c->pend, c->n);
  return ref_t2_abcd(&c->s, c->pend, c->n, x);
}

static uint64_t ref_t1ha1(const void *data, uint64_t len, uint64_t seed, int be) {
  const uint8_t *p = (const uint8_t *)data;
  uint64_t a = seed, b = len;
  if (len > 32) {
    uint64_t c = ref_ror(len, 17) + seed, d = len ^ ref_ror(seed, 17);
    for (; len >= 32; len -= 32, p += 32) {
      uint64_t w0 = ref_get(p, 8, be), w1 = ref_get(p + 8, 8, be), w2 = ref_get(p + 16, 8, be),
               w3 = ref_get(p + 24, 8, be);
      uint64_t d02 = w0 ^ ref_ror(w2 + d, 17), c13 = w1 ^ ref_ror(w3 + c, 17);
      d -= b ^ ref_ror(w1, 31);
      c += a ^ ref_ror(w0, 41);
      b ^= RP[0] * (c13 + w2);
      a ^= RP[1] * (d02 + w3);
    }
    a ^= RP[6] * (ref_ror(c, 17) + d);
    b ^= RP[5] * (c + ref_ror(d, 17));
  }
  if (len > 24) { b += ref_mux(ref_get(p, 8, be), 4); p += 8; len -= 8; }
  if (len > 16) { a += ref_mux(ref_get(p, 8, be), 3); p += 8; len -= 8; }
  if (len > 8) { b += ref_mux(ref_get(p, 8, be), 2); p += 8; len -= 8; }
  if (len) a += ref_mux(ref_get(p, (unsigned)len, be), 1);
  uint64_t t = (a ^ b) * RP[0];
  return ref_mux(ref_ror(a + b, 17), 4) + (t ^ ref_ror(t, 41));
}

static uint64_t ref_t1ha1_le(const void *p, uint64_t n, uint64_t s) { return ref_t1ha1(p, n, s, 0); }
static uint64_t ref_t1ha1_be(const void *p, uint64_t n, uint64_t s) { return ref_t1ha1(p, n, s, 1); }

static void ref_mix32(uint32_t *x, uint32_t *y, uint32_t v, int k) {
  uint64_t l = (uint64_t)(uint32_t)(*y + v) * RP32[k];
  *x ^= (uint32_t)l;
  *y += (uint32_t)(l >> 32);
}

static uint64_t ref_t1ha0_32(const void *data, uint64_t len, uint64_t seed, int be) {
  const uint8_t *p = (const uint8_t *)data;
  uint32_t n = (uint32_t)len;
  uint32_t a = ref_ror32(n, 17) + (uint32_t)seed, b = n ^ (uint32_t)(seed >> 32);
  if (len > 16) {
    uint32_t c = ~a, d = ref_ror32(b, 5);
    for (; len >= 16; len -= 16, p += 16) {
      uint32_t w0 = (uint32_t)ref_get(p, 4, be), w1 = (uint32_t)ref_get(p + 4, 4, be),
               w2 = (uint32_t)ref_get(p + 8, 4, be), w3 = (uint32_t)ref_get(p + 12, 4, be);
      uint32_t d13 = w1 + ref_ror32(w3 + d, 17), c02 = w0 ^ ref_ror32(w2 + c, 11);
      d ^= ref_ror32(a + w0, 3);
      c ^= ref_ror32(b + w1, 7);
      b = RP32[1] * (c02 + w3);
      a = RP32[0] * (d13 ^ w2);
    }
    c += a;
    d += b;
    a ^= RP32[6] * (ref_ror32(c, 16) + d);
    b ^= RP32[5] * (c + ref_ror32(d, 16));
  }
  if (len > 12) { ref_mix32(&a, &b, (uint32_t)ref_get(p, 4, be), 4); p += 4; len -= 4; }
  if (len > 8) { ref_mix32(&b, &a, (uint32_t)ref_get(p, 4, be), 3); p += 4; len -= 4; }
  if (len > 4) { ref_mix32(&a, &b, (uint32_t)ref_get(p, 4, be), 2); p += 4; len -= 4; }
  if (len) ref_mix32(&b, &a, (uint32_t)ref_get(p, (unsigned)len, be), 1);
  uint64_t l = (uint64_t)(b ^ ref_ror32(a, 13)) | (uint64_t)a << 32;
  l *= RP[0];
  l ^= l >> 41;
  l *= RP[4];
  l ^= l >> 47;
  return l * RP[6];
}

static uint64_t ref_t1ha0_32le(const void *p, uint64_t n, uint64_t s) { return ref_t1ha0_32(p, n, s, 0); }
static uint64_t ref_t1ha0_32be(const void *p, uint64_t n, uint64_t s) { return ref_t1ha0_32(p, n, s, 1); }

/* ------------------------------------------------------------ AES variants */

typedef struct {
  uint64_t lo, hi;
} ref_v;

#if defined(__AES__) && defined(__SSE2__)
#include <wmmintrin.h>
static void ref_aes_setup(void) {}
static ref_v ref_fromm(__m128i m) {
  ref_v r;
  memcpy(&r, &m, 16);
  return r;
}
static __m128i ref_tom(ref_v v) {
  __m128i m;
  memcpy(&m, &v, 16);
  return m;
}
static ref_v ref_enc(ref_v s, ref_v k) { return ref_fromm(_mm_aesenc_si128(ref_tom(s), ref_tom(k))); }
static ref_v ref_dec(ref_v s, ref_v k) { return ref_fromm(_mm_aesdec_si128(ref_tom(s), ref_tom(k))); }
#else
static uint8_t ref_sb[256], ref_isb[256];
static uint8_t ref_xt(uint8_t a) { return (uint8_t)((a << 1) ^ (a & 0x80 ? 0x1b : 0)); }
static uint8_t ref_gm(uint8_t a, unsigned b) {
  uint8_t r = 0;
  for (; b; b >>= 1, a = ref_xt(a))
    if (b & 1)
      r ^= a;
  return r;
}
static void ref_aes_setup(void) {
  if (ref_sb[0])
    return;
  for (unsigned i = 0; i < 256; i++) {
    uint8_t inv = 0;
    for (unsigned j = 1; i && j < 256; j++)
      if (ref_gm((uint8_t)i, j) == 1)
        inv = (uint8_t)j;
    uint8_t s = inv, x = inv;
    for (int k = 0; k < 4; k++) {
      s = (uint8_t)(s << 1 | s >> 7);
      x ^= s;
    }
    ref_sb[i] = x ^ 0x63;
    ref_isb[x ^ 0x63] = (uint8_t)i;
  }
}
static ref_v ref_round(ref_v s, ref_v k, int dec) {
  uint8_t b[16], t[16], o[16];
  ref_v r;
  for (int i = 0; i < 8; i++) {
    b[i] = (uint8_t)(s.lo >> (8 * i));
    b[i + 8] = (uint8_t)(s.hi >> (8 * i));
  }
  for (int i = 0; i < 16; i++)
    t[i] = dec ? ref_isb[b[(i + 16 - 4 * (i % 4)) % 16]] : ref_sb[b[(i + 4 * (i % 4)) % 16]];
  for (int c = 0; c < 16; c += 4)
    for (int i = 0; i < 4; i++)
      o[c + i] = dec ? (uint8_t)(ref_gm(t[c + i], 14) ^ ref_gm(t[c + (i + 1) % 4], 11) ^
                                 ref_gm(t[c + (i + 2) % 4], 13) ^ ref_gm(t[c + (i + 3) % 4], 9))
                     : (uint8_t)(ref_gm(t[c + i], 2) ^ ref_gm(t[c + (i + 1) % 4], 3) ^
                                 t[c + (i + 2) % 4] ^ t[c + (i + 3) % 4]);
  r.lo = ref_get(o, 8, 0) ^ k.lo;
  r.hi = ref_get(o + 8, 8, 0) ^ k.hi;
  return r;
}
static ref_v ref_enc(ref_v s, ref_v k) { return ref_round(s, k, 0); }
static ref_v ref_dec(ref_v s, ref_v k) { return ref_round(s, k, 1); }
#endif

static ref_v ref_ld(const uint8_t *p) {
  ref_v r = {ref_get(p, 8, 0), ref_get(p + 8, 8, 0)};
  return r;
}
static ref_v ref_add(ref_v x, ref_v y) {
  ref_v r = {x.lo + y.lo, x.hi + y.hi};
  return r;
}
static ref_v ref_sub(ref_v x, ref_v y) {
  ref_v r = {x.lo - y.lo, x.hi - y.hi};
  return r;
}
static ref_v ref_xor(ref_v x, ref_v y) {
  ref_v r = {x.lo ^ y.lo, x.hi ^ y.hi};
  return r;
}

static uint64_t ref_aes_end(ref_v x, ref_v y, const uint8_t *p, size_t n) {
  x = ref_add(ref_dec(x, ref_enc(y, x)), y);
  return ref_t2_ab(x.lo, x.hi, p, n);
}

static void ref_pair(ref_v *x, ref_v *y, const uint8_t *p) {
  ref_v v0y = ref_add(*y, ref_ld(p)), v1x = ref_sub(*x, ref_ld(p + 16));
  *x = ref_dec(*x, v0y);
  *y = ref_dec(*y, v1x);
}

static uint64_t ref_aes_a(const void *data, uint64_t len, uint64_t seed) {
  const uint8_t *p = (const uint8_t *)data;
  ref_aes_setup();
  if (len <= 32)
    return ref_t2_ab(seed, len, p, (size_t)len);
  ref_v x = {len, seed}, k = {RP[6], RP[5]}, y = ref_enc(x, k), v[8];
  for (; len >= 128; len -= 128, p += 128) {
    for (int i = 0; i < 8; i++)
      v[i] = ref_ld(p + 16 * i);
    ref_v v0y = ref_enc(v[0], y), v2x6 = ref_enc(v[2], ref_xor(x, v[6]));
    ref_v v4567 = ref_xor(ref_enc(v[4], v[5]), ref_add(v[6], v[7]));
    ref_v v0y71 = ref_dec(ref_sub(v[7], v0y), v[1]);
    x = ref_enc(v4567, ref_add(x, y));
    y = ref_enc(ref_enc(v2x6, v[3]), ref_xor(v0y71, v[5]));
  }
  for (; len >= 32; len -= 32, p += 32)
    ref_pair(&x, &y, p);
  if (len >= 16) {
    y = ref_add(x, y);
    x = ref_dec(x, ref_ld(p));
    p += 16;
    len -= 16;
  }
  return ref_aes_end(x, y, p, (size_t)len);
}

static uint64_t ref_aes_b(const void *data, uint64_t len, uint64_t seed) {
  const uint8_t *p = (const uint8_t *)data;
  ref_aes_setup();
  if (len <= 32)
    return ref_t2_ab(seed, len, p, (size_t)len);
  ref_v x = {len, seed}, k = {RP[1], RP[0]}, y = ref_enc(x, k), inc = {RP[6], RP[5]};
  if (len & 16) {
    x = ref_add(x, ref_ld(p));
    y = ref_enc(x, y);
    p += 16;
    len -= 16;
  }
  ref_v salt = y;
  for (; len >= 128; len -= 128, p += 128) {
    ref_v t = ref_enc(ref_ld(p), salt);
    for (int i = 1; i < 8; i++)
      t = ref_dec(t, ref_ld(p + 16 * i));
    salt = ref_add(salt, inc);
    t = ref_enc(x, t);
    x = ref_add(y, x);
    y = t;
  }
  for (; len >= 32; len -= 32, p += 32)
    ref_pair(&x, &y, p);
  return ref_aes_end(x, y, p, (size_t)len);
}
#define ref_t1ha0_ia32aes_noavx ref_aes_a
#define ref_t1ha0_ia32aes_avx ref_aes_a
#define ref_t1ha0_ia32aes_avx2 ref_aes_b
#endif
