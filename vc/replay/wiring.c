/* Looks for a CPU, a hash or a verdict for which dispatch or the self-checks do the wrong thing.
 * wiring dispatch|verdict|wrappers
 * Built with the fake cpuid.h; EXPECT_BASE, EXPECT_AES, EXPECT_SELECT, golden.h come from the checker.
 * For 'wrappers' the library's t1ha_selfcheck() is renamed away and replaced by the one below. */
#include "ref.h"
#include "golden.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef uint64_t (*hash_t)(const void *, size_t, uint64_t);
#define SYM(n) extern char u_##n[] __asm__(#n) __attribute__((weak));
SYM(t1ha2_atonce) SYM(t1ha2_atonce128) SYM(t1ha1_le) SYM(t1ha1_be) SYM(t1ha0_32le) SYM(t1ha0_32be)
SYM(t1ha0_ia32aes_noavx) SYM(t1ha0_ia32aes_avx) SYM(t1ha0_ia32aes_avx2) SYM(t1ha0_resolve) SYM(t1ha_ia32cpu_features)
#ifndef CPU0
#define CPU0 0
#define CPU1 0
#define CPU2 0
#endif
unsigned vphb_cpu[4] = {CPU0, CPU1, CPU2, 0};
static unsigned rnd32(void) { static uint64_t s = 88172645463325252ull; s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (unsigned)(s >> 16); }

static void expected(unsigned max, unsigned c, unsigned b, unsigned *ec, unsigned *eb) {
  *ec = max >= 1 ? c : 0;
  *eb = max >= 7 ? b : 0;
}
static int level(unsigned ec, unsigned eb) {
  if (!(ec >> 25 & 1)) return 0;
  if (!(ec >> 27 & 1) || !(ec >> 28 & 1)) return 1;
  return eb >> 5 & 1 ? 3 : 2;
}
static const char *name_of(const void *p) {
  if (!p) return "NULL";
#define N(n) if (p == (void *)u_##n) return #n;
  N(t1ha2_atonce) N(t1ha1_le) N(t1ha1_be) N(t1ha0_32le) N(t1ha0_32be) N(t1ha0_ia32aes_noavx) N(t1ha0_ia32aes_avx) N(t1ha0_ia32aes_avx2)
  return "another function";
}
#define STR2(x) #x
#define STR(x) STR2(x)
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
static const char *want_name(int l) {
  static const char *n[] = {0, "t1ha0_ia32aes_noavx", "t1ha0_ia32aes_avx", "t1ha0_ia32aes_avx2"};
  return l && EXPECT_AES && EXPECT_SELECT ? n[l] : STR(EXPECT_BASE);
}
#ifdef DISPATCH
extern uint64_t vphb_client(const void *, size_t, uint64_t);
static int ref_of(const char *n) {
  if (!strcmp(n, "t1ha2_atonce")) return F_T2;
  if (!strcmp(n, "t1ha1_le")) return F_T1_LE;
  if (!strcmp(n, "t1ha1_be")) return F_T1_BE;
  if (!strcmp(n, "t1ha0_32le")) return F_T0_LE;
  if (!strcmp(n, "t1ha0_32be")) return F_T0_BE;
  return !strcmp(n, "t1ha0_ia32aes_avx2") ? F_AES_B : F_AES_A;
}
static int dispatch(void) {
  static const unsigned maxs[] = {0, 1, 2, 6, 7, 8, 13, 0x20};
  __builtin_cpu_init();
  int have = !__builtin_cpu_supports("aes") ? 0 : !__builtin_cpu_supports("avx") ? 1 : !__builtin_cpu_supports("avx2") ? 2 : 3;
  unsigned ec, eb;
  expected(vphb_cpu[0], vphb_cpu[1], vphb_cpu[2], &ec, &eb);
  int l = level(ec, eb);
  uint8_t d[300];
  for (int i = 0; i < 300; i++) d[i] = (uint8_t)rnd32();
  if (l <= have)
    for (int n = 0; n < 300; n += 7) {
      uint64_t w, hi, s = rnd32() * 0x123456789ull, v = vphb_client(d, n, s);
      w = ref_hash(ref_of(want_name(l)), d, n, s, &hi);
      if (v != w) {
        printf("FOUND CPUID max leaf=%u leaf1.ecx=0x%x leaf7.ebx=0x%x: t1ha0(%d bytes, seed 0x%llx) = 0x%llx is not the value of %s (0x%llx)\n",
               vphb_cpu[0], vphb_cpu[1], vphb_cpu[2], n, (unsigned long long)s, (unsigned long long)v, want_name(l), (unsigned long long)w);
        return 1;
      }
    }
  for (unsigned t = 0; t < 200000; t++) {
    unsigned c = (t & 1) << 25 | (t >> 1 & 1) << 27 | (t >> 2 & 1) << 28 | (t >> 3 & 1) << 26;
    unsigned b = (t >> 4 & 1) << 5;
    unsigned m = maxs[t >> 5 & 7];
    if (t >= 256) { c ^= rnd32() & rnd32() & rnd32(); b ^= rnd32() & rnd32() & rnd32(); }
    if (t & 256) m = rnd32();
    unsigned f = t % 3 == 0 ? 0 : t % 3 == 1 ? ~0u : rnd32();
    vphb_cpu[0] = m, vphb_cpu[1] = c, vphb_cpu[2] = b, vphb_cpu[3] = f;
    expected(m, c, b, &ec, &eb);
    if (EXPECT_AES && u_t1ha_ia32cpu_features) {
      uint64_t v = ((uint64_t(*)(void))u_t1ha_ia32cpu_features)();
      if (v != (ec | (uint64_t)eb << 32)) {
        printf("FOUND CPUID max leaf=%u leaf1.ecx=0x%x leaf7.ebx=0x%x: t1ha_ia32cpu_features() = 0x%llx\n", m, c, b, (unsigned long long)v);
        return 1;
      }
    }
    if (EXPECT_SELECT && u_t1ha0_resolve) {
      void *p = ((void *(*)(void))u_t1ha0_resolve)();
      if (strcmp(name_of(p), want_name(level(ec, eb)))) {
        printf("FOUND CPUID max leaf=%u leaf1.ecx=0x%x leaf7.ebx=0x%x: t1ha0_resolve() = %s, expected %s\n", m, c, b, name_of(p), want_name(level(ec, eb)));
        return 1;
      }
    }
  }
  return 0;
}
#endif

#ifdef VERDICT
int t1ha_selfcheck(hash_t, const uint64_t *);
static uint64_t refs[81], val[81];
static int unknown, seen[81];
static void vec(int i, const uint8_t **d, size_t *n, uint64_t *s) {
  static uint8_t lng[512];
  for (int k = 0; k < 512; k++) lng[k] = (uint8_t)k;
  if (i < 3) *d = i < 2 ? 0 : gold_pattern, *n = i < 2 ? 0 : 64, *s = i == 1 ? ~0ull : 0;
  else if (i < 66) *d = gold_pattern, *n = (size_t)(i - 2), *s = 1ull << (i - 3);
  else if (i < 73) *d = gold_pattern + (i - 65), *n = (size_t)(64 - (i - 65)), *s = ~0ull << (i - 65);
  else *d = lng + (i - 73), *n = (size_t)(128 + (i - 73) * 17), *s = ~0ull << 7;
}
static uint64_t fake(const void *d, size_t n, uint64_t s) {
  for (int i = 0; i < 81; i++) {
    const uint8_t *p; size_t m; uint64_t x;
    vec(i, &p, &m, &x);
    if (m == n && x == s && (n == 0 || !memcmp(p, d, n))) { seen[i]++; return val[i]; }
  }
  unknown++;
  return rnd32();
}
static int verdict(void) {
  for (int r = 0; r < 60; r++)
    for (int k = -1; k < 81; k++)
      for (int two = 0; two < 3; two++) {
        for (int i = 0; i < 81; i++) refs[i] = val[i] = rnd32() | (uint64_t)rnd32() << 32;
        uint64_t delta = r < 64 && r >= 0 ? (r % 3 ? rnd32() | (uint64_t)rnd32() << 32 | 1 : 1ull << ((r / 3 * 13 + k + 64) & 63)) : 1;
        int k2 = (int)(rnd32() % 81);
        int wrong = k >= 0;
        if (k >= 0) val[k] ^= delta;
        if (two == 1 && k >= 0 && k2 != k) val[k2] ^= delta;
        if (two == 2) for (int i = 0; i < 81; i++) val[i] ^= delta, wrong = 1;
        if (two == 2 && k >= 0) val[k] ^= delta;
        unknown = 0;
        int v = t1ha_selfcheck(fake, refs);
        if (v != (wrong ? -1 : 0)) {
          printf("FOUND t1ha_selfcheck() returns %d for a hash that is %s%d of the 81 reference values (probe %d off by 0x%llx%s)\n", v,
                 wrong ? "wrong on some: " : "right on all ", wrong ? k : 81, k, (unsigned long long)delta, two == 1 ? ", and one more" : two == 2 ? ", all the others" : "");
          return 1;
        }
      }
  return 0;
}
#endif

#ifdef WRAPPERS
static int fails = -1, hits[16], bad_pair;
static const char *KEY[] = {"2atonce", "2atonce128", "2stream", "2stream128", "64le", "64be", "32le", "32be", "aes_noavx", "aes_avx", "aes_avx2"};
static const uint64_t *TAB[] = {gold_2atonce, gold_2atonce128, gold_2stream, gold_2stream128, gold_64le, gold_64be, gold_32le, gold_32be, gold_ia32aes_a, gold_ia32aes_a, gold_ia32aes_b};
static char why[300];
static int identify(hash_t h) {
#define I(n, k) if ((void *)h == (void *)u_##n) return k;
  I(t1ha2_atonce, 0) I(t1ha1_le, 4) I(t1ha1_be, 5) I(t1ha0_32le, 6) I(t1ha0_32be, 7)
  I(t1ha0_ia32aes_noavx, 8) I(t1ha0_ia32aes_avx, 9) I(t1ha0_ia32aes_avx2, 10)
  uint8_t d[100];
  int ok[4] = {1, 1, 1, 1};
  for (int t = 0; t < 60; t++) {
    int n = t % 100;
    uint64_t s = rnd32() * 0x987654321ull, hi, v;
    for (int i = 0; i < n; i++) d[i] = (uint8_t)rnd32();
    v = h(d, n, s);
    ok[0] &= v == ref_hash(F_T2, d, n, s, &hi);
    ok[1] &= v == ref_hash(F_T2_128, d, n, s, &hi);
    ref_stream c;
    ref_stream_init(&c, s, s);
    ref_stream_add(&c, d, n);
    ok[2] &= v == ref_stream_final(c, 0);
    ok[3] &= v == ref_stream_final(c, &hi);
  }
  for (int i = 0; i < 4; i++) if (ok[i]) return i;
  return -1;
}
int t1ha_selfcheck(hash_t h, const uint64_t *refs) {
  int k = identify(h);
  if (k < 0) { bad_pair = 1; strcpy(why, "checks something that is none of the library's hash functions"); return 0; }
  if (memcmp(refs, TAB[k], 81 * 8)) {
    bad_pair = 1;
    sprintf(why, "compares %s with values that are not its published reference values", KEY[k]);
  }
  hits[k]++;
  return fails == k ? -1 : 0;
}
#define W(n) extern char w_##n[] __asm__("t1ha_selfcheck__" #n) __attribute__((weak));
W(t1ha2_atonce) W(t1ha2_atonce128) W(t1ha2_stream) W(t1ha2) W(t1ha1_le) W(t1ha1_be) W(t1ha1) W(t1ha0_32le) W(t1ha0_32be)
W(t1ha0_ia32aes_noavx) W(t1ha0_ia32aes_avx) W(t1ha0_ia32aes_avx2) W(t1ha0) W(all_enabled)
static int wrappers(void) {
  int m2 = EXPECT_D2 ? 0 : 15, m1 = EXPECT_D1 ? 0 : 48, m0 = EXPECT_D0 ? 0 : 192;
  int via = sizeof(size_t) == 8 && !EXPECT_D0 ? (EXPECT_D1 ? m2 : m1) : 0;
  struct { const char *n; void *f; int mask, cpu; } L[] = {
    {"t1ha2_atonce", w_t1ha2_atonce, 1, 0}, {"t1ha2_atonce128", w_t1ha2_atonce128, 2, 0}, {"t1ha2_stream", w_t1ha2_stream, 12, 0}, {"t1ha2", w_t1ha2, 15, 0},
    {"t1ha1_le", w_t1ha1_le, 16, 0}, {"t1ha1_be", w_t1ha1_be, 32, 0}, {"t1ha1", w_t1ha1, 48, 0},
    {"t1ha0_32le", w_t1ha0_32le, 64, 0}, {"t1ha0_32be", w_t1ha0_32be, 128, 0},
    {"t1ha0_ia32aes_noavx", w_t1ha0_ia32aes_noavx, 256, 0}, {"t1ha0_ia32aes_avx", w_t1ha0_ia32aes_avx, 512, 0},
    {"t1ha0_ia32aes_avx2", w_t1ha0_ia32aes_avx2, 1024, 0}, {"t1ha0", w_t1ha0, m0 | via, 1}, {"all_enabled", w_all_enabled, m0 | m1 | m2, 1}};
  for (unsigned t = 0; t < 64; t++) {
    unsigned c = (t & 1) << 25 | (t >> 1 & 1) << 27 | (t >> 2 & 1) << 28, b = (t >> 3 & 1) << 5;
    vphb_cpu[0] = t & 16 ? 6 : 7, vphb_cpu[1] = c, vphb_cpu[2] = b;
    vphb_cpu[3] = t & 32 ? ~0u : 0;
    unsigned ec, eb;
    expected(vphb_cpu[0], c, b, &ec, &eb);
    int l = EXPECT_AES ? level(ec, eb) : 0;
    for (unsigned i = 0; i < sizeof L / sizeof *L; i++) {
      if (!L[i].f) continue;
      int mask = L[i].mask;
      if (L[i].cpu && !EXPECT_D0) mask |= l == 0 ? 0 : l == 1 ? 256 : l == 2 ? 256 | 512 : 256 | 512 | 1024;
      for (fails = -1; fails < 11; fails++) {
        memset(hits, 0, sizeof hits);
        bad_pair = 0;
        int v = ((int (*)(void))L[i].f)();
        int want = fails >= 0 && (mask >> fails & 1);
        if (bad_pair) { printf("FOUND t1ha_selfcheck__%s %s\n", L[i].n, why); return 1; }
        for (int k = 8; k < 11; k++)
          if (L[i].cpu && hits[k] && !(mask >> k & 1)) {
            printf("FOUND t1ha_selfcheck__%s runs %s on a CPU without its instructions (leaf1.ecx=0x%x leaf7.ebx=0x%x max=%u)\n", L[i].n, KEY[k], c, b, vphb_cpu[0]);
            return 1;
          }
        if ((v != 0) != want) {
          printf("FOUND t1ha_selfcheck__%s returns %d when the check of %s %s (leaf1.ecx=0x%x leaf7.ebx=0x%x max=%u)\n", L[i].n, v,
                 fails < 0 ? "every function" : KEY[fails], fails < 0 ? "passes" : "fails", c, b, vphb_cpu[0]);
          return 1;
        }
      }
    }
  }
  return 0;
}
#endif
int main(void) {
#ifdef DISPATCH
  return dispatch();
#elif defined VERDICT
  return verdict();
#else
  return wrappers();
#endif
}
