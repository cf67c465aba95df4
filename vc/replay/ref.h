#include <stdint.h>
#include <stddef.h>
enum { F_T2, F_T2_128, F_T1_LE, F_T1_BE, F_T0_LE, F_T0_BE, F_AES_A, F_AES_B };
uint64_t ref_hash(int fn, const uint8_t *k, uint64_t n, uint64_t seed, uint64_t *ex);
typedef struct { uint64_t s[4], total; uint8_t b[32]; unsigned fill; } ref_stream;
void ref_stream_init(ref_stream *r, uint64_t x, uint64_t y);
void ref_stream_add(ref_stream *r, const uint8_t *p, uint64_t n);
uint64_t ref_stream_final(ref_stream r, uint64_t *ex);
