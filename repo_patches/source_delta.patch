From 7f184924c5fc8d81735b120c74b43ce5542e4db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 1/4] fix: use the existing fetch32_be_unaligned() in
 tail64_be_unaligned()

fetch32_be() is not declared anywhere, so big-endian targets with efficient
unaligned access and no 64-bit oneshot read did not build.
---
 src/t1ha_bits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t1ha_bits.h b/src/t1ha_bits.h
index 93b6b51..5c2eb0c 100644
--- a/src/t1ha_bits.h
+++ b/src/t1ha_bits.h
@@ -935,7 +935,7 @@ tail64_be_unaligned(const void *v, size_t tail) {
   case 3:
     return (uint32_t)fetch16_be_unaligned(p) << 8 | p[2];
   case 4:
-    return fetch32_be(p);
+    return fetch32_be_unaligned(p);
   case 5:
     return (uint64_t)fetch32_be_unaligned(p) << 8 | p[4];
   case 6:
-- 
2.43.0


From 5a767745e5d7c1d23e49047c2716ecc9d6eaab72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 2/4] fix: no 8-byte oneshot read of a 4-byte aligned tail on
 32-bit targets

tail64_{le,be}_aligned() fetched 8 bytes at once. On targets where
ALIGNMENT_64 is 4 the pointer may be the last aligned word of a page, so the
read crossed into the next page, which may be not mapped.
---
 src/t1ha_bits.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/t1ha_bits.h b/src/t1ha_bits.h
index 5c2eb0c..2f42553 100644
--- a/src/t1ha_bits.h
+++ b/src/t1ha_bits.h
@@ -604,7 +604,8 @@ fetch64_le_unaligned(const void *v) {
 static __maybe_unused __always_inline uint64_t tail64_le_aligned(const void *v,
                                                                  size_t tail) {
   const uint8_t *const p = (const uint8_t *)v;
-#if T1HA_USE_FAST_ONESHOT_READ && !defined(__SANITIZE_ADDRESS__)
+#if T1HA_USE_FAST_ONESHOT_READ && !defined(__SANITIZE_ADDRESS__) &&             \
+    (UINTPTR_MAX > 0xffffFFFFul || ULONG_MAX > 0xffffFFFFul)
   /* We can perform a 'oneshot' read, which is little bit faster. */
   const unsigned shift = ((8 - tail) & 7) << 3;
   return fetch64_le_aligned(p) & ((~UINT64_C(0)) >> shift);
@@ -847,7 +848,8 @@ fetch64_be_unaligned(const void *v) {
 static __maybe_unused __always_inline uint64_t tail64_be_aligned(const void *v,
                                                                  size_t tail) {
   const uint8_t *const p = (const uint8_t *)v;
-#if T1HA_USE_FAST_ONESHOT_READ && !defined(__SANITIZE_ADDRESS__)
+#if T1HA_USE_FAST_ONESHOT_READ && !defined(__SANITIZE_ADDRESS__) &&             \
+    (UINTPTR_MAX > 0xffffFFFFul || ULONG_MAX > 0xffffFFFFul)
   /* We can perform a 'oneshot' read, which is little bit faster. */
   const unsigned shift = ((8 - tail) & 7) << 3;
   return fetch64_be_aligned(p) >> shift;
-- 
2.43.0


From 1a055bf41095856e8ad9267d8794a657c95026e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 3/4] fix: keep the upper half of the length in
 t1ha0_ia32aes_avx2()

On LLP64 targets the 15ul mask is 32 bits wide, so lengths of 4 GiB and above
were truncated.
---
 src/t1ha0_ia32aes_b.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t1ha0_ia32aes_b.h b/src/t1ha0_ia32aes_b.h
index f8759dd..3411e5b 100644
--- a/src/t1ha0_ia32aes_b.h
+++ b/src/t1ha0_ia32aes_b.h
@@ -56,7 +56,7 @@ uint64_t T1HA_IA32AES_NAME(const void *data, size_t len, uint64_t seed) {
 
     const __m128i *v = (const __m128i *)data;
     const __m128i *const detent =
-        (const __m128i *)((const uint8_t *)data + (len & ~15ul));
+        (const __m128i *)((const uint8_t *)data + (len & ~(size_t)15));
     data = detent;
 
     if (len & 16) {
-- 
2.43.0


From fe8d64024fe3e892a964ccc2c44faba1447da5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 4/4] fix: t1ha2_update(ctx, NULL, 0) must not pass NULL to
 memcpy()

With a partially filled buffer an empty chunk reached memcpy() with its
pointer as is; NULL is a valid pointer for an empty message, but memcpy()
requires non-null pointers even for a zero size.
---
 src/t1ha2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t1ha2.c b/src/t1ha2.c
index 009f922..e01943e 100644
--- a/src/t1ha2.c
+++ b/src/t1ha2.c
@@ -313,7 +313,7 @@ void t1ha2_update(t1ha_context_t *__restrict ctx, const void *__restrict data,
                   size_t length) {
   ctx->total += length;
 
-  if (ctx->partial) {
+  if (ctx->partial && length) {
     const size_t left = 32 - ctx->partial;
     const size_t chunk = (length >= left) ? left : length;
     memcpy(ctx->buffer.bytes + ctx->partial, data, chunk);
-- 
2.43.0

