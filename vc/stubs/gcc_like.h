/* the reference compiler is gcc: it has no __builtin_addcll */
#undef __has_builtin
#define __has_builtin(x) VPHB_##x
#define VPHB___builtin_addcll 0
#define VPHB___builtin_unreachable 1
#define VPHB___builtin_bswap16 1
#define VPHB___builtin_assume_aligned 1
#define VPHB___builtin_prefetch 1
