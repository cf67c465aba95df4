/* CPUID taken from a variable: stands in for the compiler's <cpuid.h> in replays */
#pragma once
extern unsigned vphb_cpu[4]; /* highest leaf, leaf 1 ecx, leaf 7 ebx, filler for everything else */
static __inline __attribute__((unused)) void vphb_cpuid(unsigned l, unsigned s, unsigned *a, unsigned *b, unsigned *c, unsigned *d) {
  *a = *b = *c = *d = vphb_cpu[3];
  if (l == 0) *a = vphb_cpu[0];
  if (l == 1) *c = vphb_cpu[1];
  if (l == 7 && s == 0) *b = vphb_cpu[2];
}
#define __cpuid_count(l, s, a, b, c, d) do { unsigned a_, b_, c_, d_; vphb_cpuid(l, s, &a_, &b_, &c_, &d_); \
  (a) = a_; (b) = b_; (c) = c_; (d) = d_; } while (0)
#define __cpuid(l, a, b, c, d) __cpuid_count(l, 0, a, b, c, d)
static __inline __attribute__((unused)) unsigned __get_cpuid_max(unsigned e, unsigned *sig) {
  if (sig) *sig = vphb_cpu[3];
  return e ? 0x80000008u : vphb_cpu[0];
}
static __inline __attribute__((unused)) int __get_cpuid(unsigned l, unsigned *a, unsigned *b, unsigned *c, unsigned *d) {
  if (__get_cpuid_max(l & 0x80000000u, 0) < l) return 0;
  vphb_cpuid(l, 0, a, b, c, d);
  return 1;
}
static __inline __attribute__((unused)) int __get_cpuid_count(unsigned l, unsigned s, unsigned *a, unsigned *b, unsigned *c, unsigned *d) {
  if (__get_cpuid_max(l & 0x80000000u, 0) < l) return 0;
  vphb_cpuid(l, s, a, b, c, d);
  return 1;
}
