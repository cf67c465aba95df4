/* Functions whose value is known from running them natively (gcc) and which selftest.py also
   executes symbolically from their IR. Nothing here comes from /repo. */
#include <stdint.h>
#include <string.h>
#define F(n) __attribute__((__noinline__)) uint64_t s_##n(uint64_t a, uint64_t b)
typedef struct { uint8_t c; uint16_t h; uint32_t w; uint64_t d; uint8_t z[5]; } S;
static const uint32_t TAB[8] = {1, 0x80000000u, 3, 0xffffffffu, 5, 0x01020304u, 7, 0};
static const S CS = {1, 0x203, 0x4050607u, 0x8090a0b0c0d0e0full, {1, 2, 3, 4, 5}};
static uint64_t sq(uint64_t x) { return x * x + 1; }
static uint64_t inc(uint64_t x) { return x + 1; }
static uint64_t neg(uint64_t x) { return -x; }
static uint64_t (*const FP[2])(uint64_t) = {inc, neg};
F(arith) { return a * 3 + b - (a ^ b) * 7; }
F(shift) { return (a << (b & 63)) ^ (b >> (a & 63)) ^ (uint64_t)((int64_t)a >> (b & 63)); }
F(rot) { return ((a >> (b & 63)) | (a << ((64 - (b & 63)) & 63))) ^ ((a << 17) | (a >> 47)); }
F(sh32) { uint32_t x = (uint32_t)a, y = (uint32_t)b; return (x << (y & 31)) + ((uint64_t)((int32_t)x >> (y & 31)) << 3) + (x >> (y & 31)); }
F(narrow) { return (uint8_t)a + (uint16_t)b + (int64_t)(int8_t)b + (int64_t)(int16_t)a + (uint64_t)(int32_t)(a ^ b); }
F(cmp) { return (a < b) | (a == b) << 1 | ((int64_t)a < (int64_t)b) << 2 | ((uint32_t)a <= (uint32_t)b) << 3 | ((int32_t)a > (int32_t)b) << 4 | ((int16_t)a >= (int16_t)b) << 5 | (a != b) << 6; }
F(branch) { if (a < b) return a + 1; if ((uint8_t)a == (uint8_t)b) return b * 5; return (int64_t)a < 0 ? ~b : a - b; }
F(sw) { uint64_t r = a; switch (b & 15) { case 0: return 9; case 3: r += 3; case 4: r ^= b; break; case 7: case 9: r = ~r; break; case 15: r <<= 3; default: r -= b; } return r; }
F(loop) { uint64_t r = b; for (unsigned i = 0; i < 13; ++i) r = r * 31 + ((a >> i) & 255); return r; }
F(down) { uint64_t r = 0; int i = 7; do { r = r << 8 | ((a >> (8 * i)) & 0x7f); } while (i-- > 0); return r ^ b; }
F(mem) { uint8_t m[24]; memset(m, 0x5a, sizeof(m)); memcpy(m + 3, &a, 8); memcpy(m + 9, &b, 8); uint64_t r = 0; for (int i = 0; i < 24; i++) r = r * 257 + m[i]; return __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__ ? r : r; }
F(memle) { uint8_t m[16]; for (int i = 0; i < 8; i++) { m[i] = (uint8_t)(a >> 8 * i); m[i + 8] = (uint8_t)(b >> 8 * i); } uint32_t x; uint16_t y; memcpy(&x, m + 5, 4); memcpy(&y, m + 7, 2); return __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__ ? ((uint64_t)x << 16) + y : ((uint64_t)__builtin_bswap32(x) << 16) + __builtin_bswap16(y); }
F(strct) { S s = CS; s.w ^= (uint32_t)a; s.z[b & 3] += (uint8_t)a; S t = s; t.h += 3; return t.c + t.h + t.w + t.d + t.z[0] * 3 + t.z[1] * 5 + t.z[2] * 7 + t.z[4] * 11; }
F(tab) { return TAB[a & 7] + ((uint64_t)TAB[b >> 61] << 7); }
F(widx) { uint64_t v[4] = {a, b, a ^ b, a + b}; v[b & 3] += 5; v[(a >> 9) & 3] ^= 99; return v[0] + 3 * v[1] + 5 * v[2] + 7 * v[3]; }
F(call) { return sq(a) ^ sq(b + 1); }
F(fptr) { return FP[a & 1](b); }
F(mul) { return (uint64_t)(uint32_t)a * (uint32_t)b + (uint32_t)((uint32_t)a * (uint32_t)b); }
F(smul) { return (uint64_t)((int64_t)(int32_t)a * (int32_t)b); }
#ifdef __SIZEOF_INT128__
F(wide) { unsigned __int128 p = (unsigned __int128)a * b; return (uint64_t)p ^ (uint64_t)(p >> 64); }
#else
F(wide) { uint64_t al = (uint32_t)a, ah = a >> 32, bl = (uint32_t)b, bh = b >> 32, ll = al * bl, m = ah * bl + (ll >> 32), m2 = al * bh + (uint32_t)m; return (m2 << 32 | (uint32_t)ll) ^ (ah * bh + (m >> 32) + (m2 >> 32)); }
#endif
F(divc) { return a / 7 + b % 32 + (a >> 3) / 8; }
F(swap) { return __builtin_bswap64(a) + __builtin_bswap32((uint32_t)b) + __builtin_bswap16((uint16_t)b); }
F(carry) { unsigned long long s; int c = __builtin_add_overflow((unsigned long long)a, (unsigned long long)b, &s); return s * 2 + c; }
F(andor) { return (a && b) + ((a & 1) || (b & 2)) * 2 + !a * 4 + (a > 5 && (b < 3 || a == b)) * 8; }
F(ptr) { uint32_t v[6] = {1, 2, 3, 4, 5, 6}; uint32_t *p = v + (a & 3), *q = v + 5; uint64_t r = (uint64_t)(q - p); while (p < q) r = r * 10 + *p++; return r + (b & 1); }
F(unroll) { uint64_t x = a, r = 0; while (x & 0xff) { r += x & 1; x = (x & 0xff) >> 1; } return r * b; }
F(sel) { uint64_t m = (a & 4) ? b : ~b; return (a & 8) ? m + a : m - a; }
F(gotos) { uint64_t n = a & 7, r = b; again: if (n == 0) goto out; r = r * 3 + n; n--; goto again; out: return r; }
F(boolx) { _Bool p = a & 1, q = b == 3; p |= q; p ^= (b >> 5) & 1; return p ? a : b; }
F(union_) { union { uint64_t d; uint8_t b[8]; uint32_t w[2]; } u; u.d = 0; u.b[3] = (uint8_t)a; u.b[4] = (uint8_t)b; return __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__ ? u.d + u.w[1] : __builtin_bswap64(u.d) + __builtin_bswap32(u.w[1]); }
#ifdef __SSE2__
#include <emmintrin.h>
F(vec) { __m128i x = _mm_set_epi64x((long long)a, (long long)b), y = _mm_set_epi64x((long long)b, (long long)(a + 5)); x = _mm_add_epi64(x, y); x = _mm_xor_si128(x, _mm_add_epi32(y, x)); x = _mm_sub_epi64(x, _mm_slli_si128(y, 3)); uint64_t r[2]; _mm_storeu_si128((__m128i *)r, _mm_unpackhi_epi64(x, _mm_srli_si128(x, 8))); _mm_storeu_si128((__m128i *)r, _mm_or_si128(_mm_loadu_si128((__m128i *)r), x)); return r[0] * 3 + r[1]; }
#else
F(vec) { uint64_t x1 = a + b, x0 = b + (a + 5), y1 = b, y0 = a + 5, e1 = (uint32_t)(y1 + x1) | ((y1 >> 32) + (x1 >> 32)) << 32, e0 = (uint32_t)(y0 + x0) | ((y0 >> 32) + (x0 >> 32)) << 32; x1 ^= e1; x0 ^= e0; x0 -= y0 << 24; x1 -= y1 << 24 | y0 >> 40; return (x1 | x0) * 3 + (x1 | x1); }
#endif
#define ALL X(arith) X(shift) X(rot) X(sh32) X(narrow) X(cmp) X(branch) X(sw) X(loop) X(down) X(memle) X(strct) X(tab) X(widx) X(call) X(fptr) X(mul) X(smul) X(wide) X(divc) X(swap) X(carry) X(andor) X(ptr) X(unroll) X(sel) X(gotos) X(boolx) X(union_) X(vec) X(mem)
#ifdef MAIN
#include <stdio.h>
int main(void) {
  unsigned long long a, b;
  while (scanf("%llx %llx", &a, &b) == 2) {
#define X(n) printf("%s %llx\n", #n, (unsigned long long)s_##n(a, b));
    ALL
  }
  return 0;
}
#endif
