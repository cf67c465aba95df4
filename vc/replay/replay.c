/* Looks for an input on which the compiled code breaks its specification.
 * replay hash <function> <seed> <ms> <state-file> [hint ...]
 *   hint = len:seed:addr-mod-4096:off=val,off=val...   ('-' for unknown)
 * replay stream <seed> <ms> <state-file> [hint ...]
 *   hint = buffered:len:total:wide
 * The case being run is kept in the state file, so that a crash is attributable.
 * exit 0: nothing found, 1: found (described on stdout) */
#define _GNU_SOURCE
#include "ref.h"
#include "t1ha.h"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define __SANITIZE_ADDRESS__ 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/asan_interface.h>
#endif
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

#define SYM(n) extern char u_##n[] __asm__(#n) __attribute__((weak));
SYM(t1ha2_atonce) SYM(t1ha2_atonce128) SYM(t1ha1_le) SYM(t1ha1_be) SYM(t1ha0_32le) SYM(t1ha0_32be)
SYM(t1ha0_ia32aes_noavx) SYM(t1ha0_ia32aes_avx) SYM(t1ha0_ia32aes_avx2)
SYM(t1ha2_init) SYM(t1ha2_update) SYM(t1ha2_final)
static const struct { const char *name; int fn; void *p; } FN[] = {
  {"t1ha2_atonce", F_T2, u_t1ha2_atonce}, {"t1ha2_atonce128", F_T2_128, u_t1ha2_atonce128},
  {"t1ha1_le", F_T1_LE, u_t1ha1_le}, {"t1ha1_be", F_T1_BE, u_t1ha1_be},
  {"t1ha0_32le", F_T0_LE, u_t1ha0_32le}, {"t1ha0_32be", F_T0_BE, u_t1ha0_32be},
  {"t1ha0_ia32aes_noavx", F_AES_A, u_t1ha0_ia32aes_noavx}, {"t1ha0_ia32aes_avx", F_AES_A, u_t1ha0_ia32aes_avx},
  {"t1ha0_ia32aes_avx2", F_AES_B, u_t1ha0_ia32aes_avx2}};

static char *note;
static uint64_t rs;
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1Dull; }
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1e3 + t.tv_nsec / 1e6; }

/* arena: guard | room | guard */
#define ROOM (64 * 4096)
static uint8_t *room;
static void arena(void) {
  uint8_t *p = mmap(0, ROOM + 2 * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) exit(0);
  room = p + 4096;
  mprotect(room, ROOM, PROT_READ | PROT_WRITE);
}

/* writable data of the library under test (sections renamed when it is linked) */
extern uint8_t __start_uutdata[] __attribute__((weak)), __stop_uutdata[] __attribute__((weak));
extern uint8_t __start_uutbss[] __attribute__((weak)), __stop_uutbss[] __attribute__((weak));
static struct { uint8_t *p; size_t n; uint8_t *copy; } seg[2];
static int nseg;
static void segments(void) {
  if (__start_uutdata) { seg[nseg].p = __start_uutdata; seg[nseg++].n = (size_t)(__stop_uutdata - __start_uutdata); }
  if (__start_uutbss) { seg[nseg].p = __start_uutbss; seg[nseg++].n = (size_t)(__stop_uutbss - __start_uutbss); }
  for (int i = 0; i < nseg; i++) seg[i].copy = malloc(seg[i].n + 1);
}
static void snap(void) { for (int k = 0; k < nseg; k++) memcpy(seg[k].copy, seg[k].p, seg[k].n); }
static int touched(void) {
  for (int k = 0; k < nseg; k++) if (memcmp(seg[k].copy, seg[k].p, seg[k].n)) return 1;
  return 0;
}
static int fail(const char *why) { printf("FOUND %s: %s\n", why, note); fflush(stdout); return 1; }

typedef uint64_t (*hash_t)(const void *, size_t, uint64_t);
typedef uint64_t (*hash128_t)(uint64_t *, const void *, size_t, uint64_t);
static void *sym;
static int fn;
static const char *fname;

static void hex(char *o, const uint8_t *p, size_t n) {
  size_t m = n > 700 ? 700 : n;
  for (size_t i = 0; i < m; i++) o += sprintf(o, "%02x", p[i]);
  if (m < n) strcpy(o, "...");
}
static uint8_t *copybuf;
static int one(uint8_t *k, uint64_t n, uint64_t seed, int check) {
  struct { uint64_t c0[4], v, c1[4]; } x;
  uint64_t r, ex = 0, want;
  char *e = note + sprintf(note, "%s(address%%4096=%u, length=%llu, seed=0x%llx) data=", fname,
                           (unsigned)((uintptr_t)k & 4095), (unsigned long long)n, (unsigned long long)seed);
  hex(e, k, (size_t)n);
  memset(&x, 0xA5, sizeof x);
  if (check && n < ROOM) memcpy(copybuf, k, (size_t)n);
  if (check) snap();
  r = fn == F_T2_128 ? ((hash128_t)sym)(&x.v, k, (size_t)n, seed) : ((hash_t)sym)(k, (size_t)n, seed);
  if (check && touched()) return fail("the function wrote to static data of the library");
  want = ref_hash(fn, k, n, seed, &ex);
  if (r != want || (fn == F_T2_128 && x.v != ex)) {
    sprintf(note + strlen(note), " -> 0x%llx", (unsigned long long)r);
    if (fn == F_T2_128) sprintf(note + strlen(note), ",0x%llx", (unsigned long long)x.v);
    sprintf(note + strlen(note), ", specified 0x%llx", (unsigned long long)want);
    if (fn == F_T2_128) sprintf(note + strlen(note), ",0x%llx", (unsigned long long)ex);
    return fail("wrong value");
  }
  for (int i = 0; i < 4; i++)
    if (x.c0[i] != 0xA5A5A5A5A5A5A5A5ull || x.c1[i] != x.c0[i]) return fail("wrote around the 128-bit result");
  if (check && n < ROOM && memcmp(copybuf, k, (size_t)n)) return fail("wrote to its input");
  return 0;
}
static void fill(uint8_t *p, size_t n, int how) {
  switch (how & 3) {
  case 0: for (size_t i = 0; i < n; i++) p[i] = (uint8_t)rnd(); break;
  case 1: memset(p, 0, n); break;
  case 2: memset(p, 0xFF, n); break;
  default: for (size_t i = 0; i < n; i++) p[i] = (uint8_t)i;
  }
}
static uint64_t aseed(void) {
  switch (rnd() % 6) {
  case 0: return 0;
  case 1: return ~0ull;
  case 2: return 1ull << rnd() % 64;
  case 3: return (1ull << rnd() % 64) - 1;
  default: return rnd();
  }
}
struct hint { uint64_t len, seed, addr; int hl, hs, ha; struct { uint64_t o; uint8_t v; } b[256]; int nb; };
static void parse(const char *s, struct hint *h) {
  memset(h, 0, sizeof *h);
  char *e;
  if (*s == '-') e = (char *)s + 1; else h->len = strtoull(s, &e, 0), h->hl = 1;
  s = e + 1;
  if (*s == '-') e = (char *)s + 1; else h->seed = strtoull(s, &e, 0), h->hs = 1;
  s = e + 1;
  if (*s == '-') e = (char *)s + 1; else h->addr = strtoull(s, &e, 0), h->ha = 1;
  while (*e == ':' || *e == ',') {
    s = e + 1;
    if (!*s || h->nb == 256) break;
    h->b[h->nb].o = strtoull(s, &e, 0);
    if (*e != '=') break;
    h->b[h->nb++].v = (uint8_t)strtoull(e + 1, &e, 0);
  }
}
static int place(uint64_t n, uint64_t seed, int how, int where, const struct hint *h) {
  uint8_t *k;
  if (n > ROOM - 8192) return 0;
  switch (where % 5) {
  case 0: k = room + ROOM - n; break;                                /* ends at the guard page */
  case 4: k = room + ROOM - n - rnd() % 16; if (k < room) k = room; break; /* ends close to it */
  case 1: k = room + (rnd() & 1) * (rnd() % 40); break;              /* starts right after one, or close to it */
  case 2: k = room + 4096 + rnd() % 64; break;
  default: k = room + 4096 + (h && h->ha ? h->addr % 4096 : 0); break;
  }
  if (how & 4) fill(k > room + 64 ? k - 64 : room, 64, 0);
  fill(k, (size_t)n, how);
  if (h) for (int i = 0; i < h->nb; i++) if (h->b[i].o < n) k[h->b[i].o] = h->b[i].v;
#ifdef __SANITIZE_ADDRESS__
  ASAN_POISON_MEMORY_REGION(room, ROOM);
  ASAN_UNPOISON_MEMORY_REGION(k, n);
  int r = one(k, n, seed, 0);
  ASAN_UNPOISON_MEMORY_REGION(room, ROOM);
  return r;
#else
  return one(k, n, seed, 1);
#endif
}
static int bigone(uint64_t n, uint64_t seed, const struct hint *h) {
  if (sizeof(size_t) < 8 || n > (9ull << 30)) return 0;
  size_t m = (n + 3 * 4096) & ~4095ull;
  uint8_t *p = mmap(0, m, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) return 0;
  uint8_t *k = p + m - n;
  size_t t = (n < 8192 ? n : 8192);
  uint8_t *q = (uint8_t *)((uintptr_t)(k + n - t) & ~4095ull);
  mprotect(q, (size_t)(p + m - q), PROT_READ | PROT_WRITE);
  fill(k + n - t > q ? k + n - t : q, (size_t)(p + m - (k + n - t > q ? k + n - t : q)), 0);
  (void)h;
  int r = one(k, n, seed, 0);
  munmap(p, m);
  return r;
}
static int do_hash(double ms, int nh, char **hs) {
  double end = now() + ms;
  struct hint h;
  int big = 0;
  for (int i = 0; i < nh; i++) {
    if (!strcmp(hs[i], "big")) { big = 1; continue; }
    parse(hs[i], &h);
    if (h.hl && h.len > ROOM - 8192) { big = 1; continue; }
    if (!h.hl) continue;
    for (int c = 0; c < 8; c++)
      for (int w = 0; w < 5; w++)
        if (place(h.len, h.hs ? h.seed : aseed(), c, w, &h)) return 1;
    for (int c = 0; c < 64; c++)
      if (place(h.len, aseed(), c, c, &h) || place(h.len, aseed(), c, c, 0)) return 1;
  }
  for (int round = 0; now() < end; round++)
    for (int n = 0; n < 700 && now() < end; n++)
      for (int w = 0; w < 5; w++)
        if (place(n, aseed(), (int)(rnd() & 7), w, 0)) return 1;
        else if (round && w == 2 && place(rnd() % 20000, aseed(), (int)(rnd() & 7), (int)(rnd() % 5), 0)) return 1;
  if (big) {
    for (int i = 0; i < nh; i++) {
      if (!strcmp(hs[i], "big")) continue;
      parse(hs[i], &h);
      if (h.hl && h.len > ROOM - 8192 && bigone(h.len, h.hs ? h.seed : 42, &h)) return 1;
    }
    static const uint64_t L[] = {(1ull << 32) + 133, (1ull << 32) - 1, 1ull << 32, (1ull << 31) + 77, (2ull << 32) + 15};
    for (int i = 0; i < (int)(sizeof L / sizeof *L); i++) if (bigone(L[i], rnd(), 0)) return 1;
  }
  return 0;
}

/* ---------------------------------------------------------------- streaming */
typedef void (*init_t)(t1ha_context_t *, uint64_t, uint64_t);
typedef void (*upd_t)(t1ha_context_t *, const void *, size_t);
typedef uint64_t (*fin_t)(t1ha_context_t *, uint64_t *);
static init_t f_init; static upd_t f_upd; static fin_t f_fin;
struct box { uint8_t g0[64]; t1ha_context_t c; uint8_t g1[64]; };
static struct box *bx[2];
static int cur;
static ref_stream R;
static uint64_t sx, sy;
static void canary(struct box *b) { memset(b->g0, 0x5A, 64); memset(b->g1, 0x5A, 64); }
static int broken(struct box *b) {
  for (int i = 0; i < 64; i++) if (b->g0[i] != 0x5A || b->g1[i] != 0x5A) return 1;
  return 0;
}
static char *hist;
static void s_init(void) {
  fill((uint8_t *)&bx[cur]->c, sizeof bx[cur]->c, (int)(rnd() & 3));
  canary(bx[cur]);
  sx = aseed(); sy = aseed();
  hist = note + sprintf(note, "init(0x%llx,0x%llx)", (unsigned long long)sx, (unsigned long long)sy);
  snap();
  f_init(&bx[cur]->c, sx, sy);
  ref_stream_init(&R, sx, sy);
}
static void s_upd(uint64_t n, int how, int where) {
  uint8_t *k = where % 3 == 0 ? room + ROOM - n : where % 3 == 1 ? room : room + 4096 + rnd() % 64;
  if (n == 0 && (how & 4)) k = 0; else fill(k, (size_t)n, how);
  if (hist - note < 60000) hist += sprintf(hist, " update(%llu bytes%s", (unsigned long long)n, n <= 64 && k ? " " : "");
  if (hist - note < 60000 && n <= 64 && k) { hex(hist, k, (size_t)n); hist += strlen(hist); }
  if (hist - note < 60000) hist += sprintf(hist, "%s)", k ? "" : ", NULL");
  f_upd(&bx[cur]->c, k, (size_t)n);
  ref_stream_add(&R, k, n);
}
static int s_fin(int wide) {
  struct { uint64_t c0[2], v, c1[2]; } x;
  uint64_t ex = 0, want = ref_stream_final(R, wide ? &ex : 0), r;
  memset(&x, 0xA5, sizeof x);
  hist += sprintf(hist, " final(%s)", wide ? "128" : "64");
  r = f_fin(&bx[cur]->c, wide ? &x.v : 0);
  if (touched()) return fail("static data of the library was written");
  if (r != want || (wide && x.v != ex)) {
    sprintf(hist, " -> 0x%llx, specified 0x%llx%s", (unsigned long long)r, (unsigned long long)want, wide && x.v != ex ? " (upper half differs)" : "");
    return fail("wrong value");
  }
  if (x.c0[0] != x.c1[0] || x.c0[1] != x.c1[0] || x.c0[0] != 0xA5A5A5A5A5A5A5A5ull || x.c1[1] != x.c1[0]) return fail("wrote around the 128-bit result");
  if (broken(bx[cur])) return fail("wrote around the context");
  return 0;
}
static void s_move(void) {
  bx[1 - cur]->c = bx[cur]->c;
  canary(bx[1 - cur]);
  fill((uint8_t *)&bx[cur]->c, sizeof bx[cur]->c, 0);
  cur = 1 - cur;
  hist += sprintf(hist, " copy-context");
}
static void s_feed(uint64_t n) { /* many bytes, zero */
  size_t m = 1 << 24;
  static uint8_t *z;
  if (!z) z = mmap(0, m, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  hist += sprintf(hist, " update(%llu zero bytes in 16 MiB pieces)", (unsigned long long)n);
  while (n) {
    size_t c = n > m ? m : (size_t)n;
    f_upd(&bx[cur]->c, z, c);
    ref_stream_add(&R, z, c);
    n -= c;
  }
}
static int do_stream(double ms, int nh, char **hs) {
  double end = now() + ms;
  bx[0] = aligned_alloc(64, (sizeof(struct box) + 63) & ~63ul);
  bx[1] = aligned_alloc(64, (sizeof(struct box) + 63) & ~63ul);
  for (int i = 0; i < nh; i++) {
    unsigned long long p, l, tot; int wide;
    if (sscanf(hs[i], "%llu:%llu:%llu:%d", &p, &l, &tot, &wide) != 4) continue;
    if (tot >= (1ull << 31)) continue;
    for (int c = 0; c < 200; c++) {
      s_init();
      if (c & 1) s_upd(32 * (rnd() % 5), c, 0);
      s_upd(p % 32, c, c);
      if (l < ROOM) s_upd(l, c, c);
      if (c & 8) s_upd(rnd() % 70, c, c);
      if (s_fin(c & 1)) return 1;
    }
  }
  for (int c = 0; now() < end; c++) {
    if (c < 2048) {                 /* every pair (buffered, length mod 32) */
      s_init();
      s_upd(c & 31, (int)(rnd() & 7), (int)(rnd() % 3));
      s_upd((c >> 5) + (rnd() & 1 ? 32 * (rnd() % 4) : 0), (int)(rnd() & 7), (int)(rnd() % 3));
      if (rnd() & 1) s_upd(rnd() % 70, (int)(rnd() & 7), (int)(rnd() % 3));
      if (s_fin((int)(rnd() & 1))) return 1;
      continue;
    }
    s_init();
    int n = (int)(rnd() % 12);
    while (n--) {
      if (rnd() % 9 == 0) s_move();
      if (rnd() % 40 == 0) s_init();
      s_upd(rnd() % 4 ? rnd() % 70 : rnd() % 9 == 0 ? rnd() % 8000 : rnd() % 400, (int)(rnd() & 7), (int)(rnd() % 3));
    }
    if (s_fin((int)(rnd() & 1))) return 1;
  }
  for (int i = 0; i < nh; i++) {
    unsigned long long p, l, tot; int wide;
    if (!strcmp(hs[i], "big")) { p = 0; l = 0; tot = (1ull << 32) + 100; wide = 0; }
    else if (sscanf(hs[i], "%llu:%llu:%llu:%d", &p, &l, &tot, &wide) != 4) continue;
    if (tot < (1ull << 28) && l < ROOM) continue;
    int direct = tot > (9ull << 30);
    s_init();
    if (direct) {
      /* too long to be fed: the context as it is after that many bytes */
      hist += sprintf(hist, " [context as after %llu bytes]", tot & ~31ull);
      bx[cur]->c.total = tot & ~31ull;
      R.total = tot & ~31ull;
    } else
      s_feed(tot & ~31ull);
    s_upd(tot & 31, 0, 0);
    if (l < ROOM) s_upd(l, 0, 0);
    else if (l <= (9ull << 30) && sizeof(size_t) == 8) {
      uint8_t *z = mmap(0, l, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (z != MAP_FAILED) {
        hist += sprintf(hist, " update(%llu zero bytes)", l);
        f_upd(&bx[cur]->c, z, l);
        ref_stream_add(&R, z, l);
        munmap(z, l);
      }
    }
    if (s_fin(wide)) return 1;
  }
  return 0;
}

int main(int argc, char **argv) {
  if (argc < 3) return 2;
  int st = !strcmp(argv[1], "stream"), a = st ? 2 : 3;
  int fd = open(argv[a + 2], O_RDWR | O_CREAT | O_TRUNC, 0600);
  if (fd < 0 || ftruncate(fd, 1 << 17)) return 2;
  note = mmap(0, 1 << 17, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  rs = strtoull(argv[a], 0, 0) * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
  double ms = atof(argv[a + 1]);
  arena();
  copybuf = malloc(ROOM);
  if (getenv("REPLAY_STATIC_DATA")) segments();
  if (st) {
    f_init = (init_t)u_t1ha2_init; f_upd = (upd_t)u_t1ha2_update; f_fin = (fin_t)u_t1ha2_final;
    if (!f_init || !f_upd || !f_fin) return 2;
    return do_stream(ms, argc - a - 3, argv + a + 3);
  }
  fname = argv[2];
  fn = -1;
  for (unsigned i = 0; i < sizeof FN / sizeof *FN; i++) if (!strcmp(FN[i].name, fname)) fn = FN[i].fn, sym = FN[i].p;
  if (fn < 0 || !sym) return 2;
  return do_hash(ms, argc - a - 3, argv + a + 3);
}
