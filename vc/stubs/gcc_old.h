/* gcc of the 4.x era: few builtins, none of the feature tests */
#include <limits.h>
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#if defined(__i386__) || defined(__x86_64__)
#include <x86intrin.h>
#include <cpuid.h>
#endif
#undef __clang__
#undef __has_builtin
#undef __has_attribute
#undef __has_feature
#undef __has_extension
#undef __has_warning
#define __has_builtin(x) 0
#define __has_attribute(x) 0
#define __has_feature(x) 0
#define __has_extension(x) 0
#define __has_warning(x) 0
