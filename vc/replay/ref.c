/* Reference results for replaying counterexamples on the compiled code: the published
 * functions, computed byte by byte. Used only to confirm failing inputs. */
#include "ref.h"
#include <string.h>

static const uint64_t P[7] = {0xEC99BF0D8372CAABull, 0x82434FE90EDCEF39ull, 0xD4F06DB99D67BE4Bull,
  0xBD9CACC22C6E9571ull, 0x9C06FAF4D023E3ABull, 0xC060724A8424F345ull, 0xCB5AF53AE3AAAC31ull};
static const uint32_t K[7] = {0x92D78269, 0xCA9B4735, 0xA4ABA1C3, 0xF6499843, 0x86F0FD61, 0xCA2DA6FB, 0xC4BB3575};

static uint64_t ror(uint64_t v, int s) { return v >> s | v << (64 - s); }
static uint32_t ror32(uint32_t v, int s) { return v >> s | v << (32 - s); }
static uint64_t hi(uint64_t a, uint64_t b) {
  uint64_t al = (uint32_t)a, ah = a >> 32, bl = (uint32_t)b, bh = b >> 32;
  uint64_t m1 = ah * bl, m2 = al * bh, lo = al * bl;
  uint64_t mid = (lo >> 32) + (uint32_t)m1 + (uint32_t)m2;
  return ah * bh + (m1 >> 32) + (m2 >> 32) + (mid >> 32);
}
/* n bytes, n <= size, zero-extended */
static uint64_t w(const uint8_t *p, int n, int big) {
  uint64_t v = 0;
  for (int i = 0; i < n; i++) v |= (uint64_t)p[i] << 8 * (big ? n - 1 - i : i);
  return v;
}
static uint64_t mux(uint64_t v, uint64_t p) { return v * p ^ hi(v, p); }
static uint64_t fin64(uint64_t a, uint64_t b) {
  return mux((a + ror(b, 41)) * P[0] ^ (ror(a, 23) + b) * P[6], P[5]);
}
static void mix(uint64_t *a, uint64_t *b, uint64_t v, uint64_t p) {
  uint64_t x = *b + v;
  *a ^= x * p;
  *b += hi(x, p);
}
static void t2init(uint64_t *s, uint64_t x, uint64_t y) {
  s[0] = x; s[1] = y; s[2] = ror(y, 23) + ~x; s[3] = ~y + ror(x, 19);
}
static void t2step(uint64_t *s, const uint8_t *k) {
  uint64_t w0 = w(k, 8, 0), w1 = w(k + 8, 8, 0), w2 = w(k + 16, 8, 0), w3 = w(k + 24, 8, 0);
  uint64_t d02 = w0 + ror(w2 + s[3], 56), c13 = w1 + ror(w3 + s[2], 19);
  s[3] ^= s[1] + ror(w1, 38);
  s[2] ^= s[0] + ror(w0, 57);
  s[1] ^= P[6] * (c13 + w2);
  s[0] ^= P[5] * (d02 + w3);
}
static uint64_t t2tail(uint64_t *s, const uint8_t *k, size_t n, int wide, uint64_t *ex) {
  uint64_t *A = s, *B = s + 1, *C = s + 2, *D = s + 3;
  for (int lvl = (int)((n + 7) / 8); lvl; lvl--) {
    int m = n > 8 ? 8 : (int)n;
    uint64_t v = w(k, m, 0);
    k += m; n -= m;
    if (!wide) { if (lvl & 1) mix(B, A, v, P[lvl]); else mix(A, B, v, P[lvl]); }
    else if (lvl == 4) mix(A, D, v, P[4]);
    else if (lvl == 3) mix(B, A, v, P[3]);
    else if (lvl == 2) mix(C, B, v, P[2]);
    else mix(D, C, v, P[1]);
  }
  if (!wide) return fin64(*A, *B);
  mix(A, B, ror(*C, 41) ^ *D, P[0]);
  mix(B, C, ror(*D, 23) ^ *A, P[6]);
  mix(C, D, ror(*A, 19) ^ *B, P[5]);
  mix(D, A, ror(*B, 31) ^ *C, P[4]);
  *ex = *C + *D;
  return *A ^ *B;
}
static void squash(uint64_t *s) {
  s[0] ^= P[6] * (s[2] + ror(s[3], 23));
  s[1] ^= P[5] * (ror(s[2], 19) + s[3]);
}
static uint64_t t2(const uint8_t *k, uint64_t n, uint64_t seed, int wide, uint64_t *ex) {
  uint64_t s[4];
  t2init(s, seed, n);
  if (n > 32) {
    for (; n >= 32; n -= 32, k += 32) t2step(s, k);
    if (!wide) squash(s);
  }
  return t2tail(s, k, (size_t)n, wide, ex);
}
void ref_stream_init(ref_stream *r, uint64_t x, uint64_t y) {
  memset(r, 0, sizeof *r);
  t2init(r->s, x, y);
}
void ref_stream_add(ref_stream *r, const uint8_t *p, uint64_t n) {
  r->total += n;
  while (n) {
    if (r->fill == 0 && n >= 32) { t2step(r->s, p); p += 32; n -= 32; continue; }
    r->b[r->fill++] = *p++; n--;
    if (r->fill == 32) { t2step(r->s, r->b); r->fill = 0; }
  }
}
uint64_t ref_stream_final(ref_stream r, uint64_t *ex) {
  uint64_t bits = (r.total << 3) ^ (1ull << 63);
  uint8_t e[8];
  for (int i = 0; i < 8; i++) e[i] = (uint8_t)(bits >> 8 * i);
  ref_stream_add(&r, e, 8);
  if (!ex) squash(r.s);
  return t2tail(r.s, r.b, r.fill, ex != 0, ex);
}
static uint64_t t1(const uint8_t *k, uint64_t n, uint64_t seed, int big) {
  uint64_t a = seed, b = n;
  if (n > 32) {
    uint64_t c = ror(n, 17) + seed, d = n ^ ror(seed, 17);
    for (; n >= 32; n -= 32, k += 32) {
      uint64_t w0 = w(k, 8, big), w1 = w(k + 8, 8, big), w2 = w(k + 16, 8, big), w3 = w(k + 24, 8, big);
      uint64_t d02 = w0 ^ ror(w2 + d, 17), c13 = w1 ^ ror(w3 + c, 17);
      d -= b ^ ror(w1, 31);
      c += a ^ ror(w0, 41);
      b ^= P[0] * (c13 + w2);
      a ^= P[1] * (d02 + w3);
    }
    a ^= P[6] * (ror(c, 17) + d);
    b ^= P[5] * (c + ror(d, 17));
  }
  for (int lvl = (int)((n + 7) / 8); lvl; lvl--) {
    int m = n > 8 ? 8 : (int)n;
    uint64_t v = w(k, m, big);
    k += m; n -= m;
    if (lvl & 1) a += mux(v, P[lvl]); else b += mux(v, P[lvl]);
  }
  uint64_t x = (a ^ b) * P[0];
  return mux(ror(a + b, 17), P[4]) + (x ^ ror(x, 41));
}
static void mix32(uint32_t *a, uint32_t *b, uint32_t v, uint32_t p) {
  uint64_t l = (uint64_t)(uint32_t)(*b + v) * p;
  *a ^= (uint32_t)l;
  *b += (uint32_t)(l >> 32);
}
static uint64_t t0(const uint8_t *k, uint64_t n, uint64_t seed, int big) {
  uint32_t len = (uint32_t)n, a = ror32(len, 17) + (uint32_t)seed, b = len ^ (uint32_t)(seed >> 32);
  if (n > 16) {
    uint32_t c = ~a, d = ror32(b, 5);
    for (; n >= 16; n -= 16, k += 16) {
      uint32_t w0 = (uint32_t)w(k, 4, big), w1 = (uint32_t)w(k + 4, 4, big);
      uint32_t w2 = (uint32_t)w(k + 8, 4, big), w3 = (uint32_t)w(k + 12, 4, big);
      uint32_t d13 = w1 + ror32(w3 + d, 17), c02 = w0 ^ ror32(w2 + c, 11);
      d ^= ror32(a + w0, 3);
      c ^= ror32(b + w1, 7);
      b = K[1] * (c02 + w3);
      a = K[0] * (d13 ^ w2);
    }
    c += a; d += b;
    a ^= K[6] * (ror32(c, 16) + d);
    b ^= K[5] * (c + ror32(d, 16));
  }
  for (int lvl = (int)((n + 3) / 4); lvl; lvl--) {
    int m = n > 4 ? 4 : (int)n;
    uint32_t v = (uint32_t)w(k, m, big);
    k += m; n -= m;
    if (lvl & 1) mix32(&b, &a, v, K[lvl]); else mix32(&a, &b, v, K[lvl]);
  }
  uint64_t l = (b ^ ror32(a, 13)) | (uint64_t)a << 32;
  l *= P[0]; l ^= l >> 41; l *= P[4]; l ^= l >> 47;
  return l * P[6];
}

/* AES round, table-free */
typedef struct { uint8_t b[16]; } v128;
static uint8_t S[256], R[256];
static uint8_t gm(uint8_t a, uint8_t b) {
  uint8_t r = 0;
  while (b) { if (b & 1) r ^= a; a = (uint8_t)(a << 1 ^ (a >> 7 ? 0x1b : 0)); b >>= 1; }
  return r;
}
static void tables(void) {
  if (S[0]) return;
  for (int i = 0; i < 256; i++) {
    uint8_t inv = 0;
    for (int j = 1; j < 256 && i; j++) if (gm((uint8_t)i, (uint8_t)j) == 1) inv = (uint8_t)j;
    uint8_t s = 0x63, x = inv;
    for (int j = 0; j < 5; j++) { s ^= x; x = (uint8_t)(x << 1 | x >> 7); }
    S[i] = s; 
  }
  for (int i = 0; i < 256; i++) R[S[i]] = (uint8_t)i;
}
static uint8_t M2[256], M3[256], M9[256], Mb[256], Md[256], Me[256];
static void mtables(void) {
  if (M2[1]) return;
  tables();
  for (int i = 0; i < 256; i++) {
    M2[i] = gm(i, 2); M3[i] = gm(i, 3); M9[i] = gm(i, 9); Mb[i] = gm(i, 11); Md[i] = gm(i, 13); Me[i] = gm(i, 14);
  }
}
static v128 x128(v128 a, v128 b) { for (int i = 0; i < 16; i++) a.b[i] ^= b.b[i]; return a; }
static v128 enc(v128 s, v128 k) {
  v128 t, o;
  mtables();
  for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) t.b[4 * c + r] = S[s.b[4 * ((c + r) & 3) + r]];
  for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) {
    const uint8_t *q = t.b + 4 * c;
    o.b[4 * c + r] = M2[q[r]] ^ M3[q[(r + 1) & 3]] ^ q[(r + 2) & 3] ^ q[(r + 3) & 3];
  }
  return x128(o, k);
}
static v128 dec(v128 s, v128 k) {
  v128 t, o;
  mtables();
  for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) t.b[4 * c + r] = R[s.b[4 * ((c - r) & 3) + r]];
  for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) {
    const uint8_t *q = t.b + 4 * c;
    o.b[4 * c + r] = Me[q[r]] ^ Mb[q[(r + 1) & 3]] ^ Md[q[(r + 2) & 3]] ^ M9[q[(r + 3) & 3]];
  }
  return x128(o, k);
}
static v128 ld(const uint8_t *p) { v128 v; memcpy(v.b, p, 16); return v; }
static v128 set(uint64_t h, uint64_t l) {
  v128 v;
  for (int i = 0; i < 8; i++) { v.b[i] = (uint8_t)(l >> 8 * i); v.b[8 + i] = (uint8_t)(h >> 8 * i); }
  return v;
}
static v128 padd(v128 a, v128 b) { return set(w(a.b + 8, 8, 0) + w(b.b + 8, 8, 0), w(a.b, 8, 0) + w(b.b, 8, 0)); }
static v128 psub(v128 a, v128 b) { return set(w(a.b + 8, 8, 0) - w(b.b + 8, 8, 0), w(a.b, 8, 0) - w(b.b, 8, 0)); }
static uint64_t aes(const uint8_t *k, uint64_t n, uint64_t seed, int two) {
  uint64_t a = seed, b = n;
  if (n > 32) {
    v128 x = set(a, b), y;
    if (!two) {
      y = enc(x, set(P[5], P[6]));
      for (; n >= 128; n -= 128, k += 128) {
        v128 v[8];
        for (int i = 0; i < 8; i++) v[i] = ld(k + 16 * i);
        v128 v0y = enc(v[0], y), v2x6 = enc(v[2], x128(x, v[6]));
        v128 v45_67 = x128(enc(v[4], v[5]), padd(v[6], v[7]));
        v128 v0y7_1 = dec(psub(v[7], v0y), v[1]), v2x6_3 = enc(v2x6, v[3]);
        x = enc(v45_67, padd(x, y));
        y = enc(v2x6_3, x128(v0y7_1, v[5]));
      }
    } else {
      y = enc(x, set(P[0], P[1]));
      if (n & 16) { x = padd(x, ld(k)); y = enc(x, y); k += 16; n -= 16; }
      v128 salt = y;
      for (; n >= 128; n -= 128, k += 128) {
        v128 z = enc(ld(k), salt);
        for (int i = 1; i < 8; i++) z = dec(z, ld(k + 16 * i));
        salt = padd(salt, set(P[5], P[6]));
        z = enc(x, z);
        x = padd(y, x);
        y = z;
      }
    }
    while (n >= 32) {
      v128 v0y = padd(y, ld(k)), v1x = psub(x, ld(k + 16));
      x = dec(x, v0y);
      y = dec(y, v1x);
      k += 32; n -= 32;
    }
    if (!two && n & 16) { y = padd(x, y); x = dec(x, ld(k)); k += 16; n -= 16; }
    x = padd(dec(x, enc(y, x)), y);
    a = w(x.b, 8, 0);
    b = w(x.b + 8, 8, 0);
  }
  uint64_t s[4] = {a, b, 0, 0}, ex;
  return t2tail(s, k, (size_t)n, 0, &ex);
}

uint64_t ref_hash(int fn, const uint8_t *k, uint64_t n, uint64_t seed, uint64_t *ex) {
  switch (fn) {
  case F_T2: return t2(k, n, seed, 0, ex);
  case F_T2_128: return t2(k, n, seed, 1, ex);
  case F_T1_LE: return t1(k, n, seed, 0);
  case F_T1_BE: return t1(k, n, seed, 1);
  case F_T0_LE: return t0(k, n, seed, 0);
  case F_T0_BE: return t0(k, n, seed, 1);
  case F_AES_A: return aes(k, n, seed, 0);
  default: return aes(k, n, seed, 1);
  }
}
