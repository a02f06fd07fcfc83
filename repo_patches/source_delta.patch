From 30c2fc12e81399c48d2a96fc5c65e8e932b4e757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:06 +0000
Subject: [PATCH 1/3] fix: tail64_be_unaligned() called the nonexistent
 fetch32_be()

Big-endian builds with T1HA_SYS_UNALIGNED_ACCESS=2 and no one-shot reads
did not compile or link.
---
 src/t1ha_bits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t1ha_bits.h b/src/t1ha_bits.h
index 93b6b51..5c2eb0c 100644
--- a/src/t1ha_bits.h
+++ b/src/t1ha_bits.h
@@ -935,7 +935,7 @@ tail64_be_unaligned(const void *v, size_t tail) {
   case 3:
     return (uint32_t)fetch16_be_unaligned(p) << 8 | p[2];
   case 4:
-    return fetch32_be(p);
+    return fetch32_be_unaligned(p);
   case 5:
     return (uint64_t)fetch32_be_unaligned(p) << 8 | p[4];
   case 6:
-- 
2.43.0


From c0e78454a4a41a743af2a131c7fb97f4c572c7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:06 +0000
Subject: [PATCH 2/3] fix: no 8-byte one-shot read of a tail that is only
 4-byte aligned

On 32-bit systems ALIGNMENT_64 is 4, so with T1HA_SYS_UNALIGNED_ACCESS 0 or 1
the read of a tail of up to 4 bytes right before a page end crossed the page
boundary and could fault.
---
 src/t1ha_bits.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/t1ha_bits.h b/src/t1ha_bits.h
index 5c2eb0c..68416f8 100644
--- a/src/t1ha_bits.h
+++ b/src/t1ha_bits.h
@@ -604,7 +604,8 @@ fetch64_le_unaligned(const void *v) {
 static __maybe_unused __always_inline uint64_t tail64_le_aligned(const void *v,
                                                                  size_t tail) {
   const uint8_t *const p = (const uint8_t *)v;
-#if T1HA_USE_FAST_ONESHOT_READ && !defined(__SANITIZE_ADDRESS__)
+#if T1HA_USE_FAST_ONESHOT_READ && !defined(__SANITIZE_ADDRESS__) &&            \
+    (UINTPTR_MAX > 0xffffFFFFul || ULONG_MAX > 0xffffFFFFul)
   /* We can perform a 'oneshot' read, which is little bit faster. */
   const unsigned shift = ((8 - tail) & 7) << 3;
   return fetch64_le_aligned(p) & ((~UINT64_C(0)) >> shift);
@@ -847,7 +848,8 @@ fetch64_be_unaligned(const void *v) {
 static __maybe_unused __always_inline uint64_t tail64_be_aligned(const void *v,
                                                                  size_t tail) {
   const uint8_t *const p = (const uint8_t *)v;
-#if T1HA_USE_FAST_ONESHOT_READ && !defined(__SANITIZE_ADDRESS__)
+#if T1HA_USE_FAST_ONESHOT_READ && !defined(__SANITIZE_ADDRESS__) &&            \
+    (UINTPTR_MAX > 0xffffFFFFul || ULONG_MAX > 0xffffFFFFul)
   /* We can perform a 'oneshot' read, which is little bit faster. */
   const unsigned shift = ((8 - tail) & 7) << 3;
   return fetch64_be_aligned(p) >> shift;
-- 
2.43.0


From 9de44ef1a33257dcf508c52ccf693c969bbb86d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:06 +0000
Subject: [PATCH 3/3] fix: t1ha0_ia32aes_avx2() lost the high half of the
 length on LLP64

On Win64 ~15ul is a 32-bit mask, so for 4 GiB and more only length modulo
4 GiB bytes were processed.
---
 src/t1ha0_ia32aes_b.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t1ha0_ia32aes_b.h b/src/t1ha0_ia32aes_b.h
index f8759dd..3411e5b 100644
--- a/src/t1ha0_ia32aes_b.h
+++ b/src/t1ha0_ia32aes_b.h
@@ -56,7 +56,7 @@ uint64_t T1HA_IA32AES_NAME(const void *data, size_t len, uint64_t seed) {
 
     const __m128i *v = (const __m128i *)data;
     const __m128i *const detent =
-        (const __m128i *)((const uint8_t *)data + (len & ~15ul));
+        (const __m128i *)((const uint8_t *)data + (len & ~(size_t)15));
     data = detent;
 
     if (len & 16) {
-- 
2.43.0

