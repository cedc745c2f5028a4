From 5ae9f027eb007d7289c819cd6e6e9ba1f237c4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:14 +0000
Subject: [PATCH 1/3] fix: don't read past a page end for 64-bit tails in
 32-bit builds

In 32-bit builds ALIGNMENT_64 is 4, so with T1HA_SYS_UNALIGNED_ACCESS less
than EFFICIENT the 'aligned' oneshot tail read fetched 8 bytes from a 4-byte
aligned address, i.e. could touch the next page when a key of up to 4 tail
bytes ends at a page boundary.
---
 src/t1ha_bits.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/t1ha_bits.h b/src/t1ha_bits.h
index 93b6b51..2197d71 100644
--- a/src/t1ha_bits.h
+++ b/src/t1ha_bits.h
@@ -604,8 +604,11 @@ fetch64_le_unaligned(const void *v) {
 static __maybe_unused __always_inline uint64_t tail64_le_aligned(const void *v,
                                                                  size_t tail) {
   const uint8_t *const p = (const uint8_t *)v;
-#if T1HA_USE_FAST_ONESHOT_READ && !defined(__SANITIZE_ADDRESS__)
-  /* We can perform a 'oneshot' read, which is little bit faster. */
+#if T1HA_USE_FAST_ONESHOT_READ && ALIGNMENT_64 >= 8 &&                         \
+    !defined(__SANITIZE_ADDRESS__)
+  /* We can perform a 'oneshot' read, which is little bit faster.
+   * However, this is safe only for the naturally aligned address, otherwise
+   * the reading may cross a page boundary behind the end of data. */
   const unsigned shift = ((8 - tail) & 7) << 3;
   return fetch64_le_aligned(p) & ((~UINT64_C(0)) >> shift);
 #else
@@ -847,8 +850,11 @@ fetch64_be_unaligned(const void *v) {
 static __maybe_unused __always_inline uint64_t tail64_be_aligned(const void *v,
                                                                  size_t tail) {
   const uint8_t *const p = (const uint8_t *)v;
-#if T1HA_USE_FAST_ONESHOT_READ && !defined(__SANITIZE_ADDRESS__)
-  /* We can perform a 'oneshot' read, which is little bit faster. */
+#if T1HA_USE_FAST_ONESHOT_READ && ALIGNMENT_64 >= 8 &&                         \
+    !defined(__SANITIZE_ADDRESS__)
+  /* We can perform a 'oneshot' read, which is little bit faster.
+   * However, this is safe only for the naturally aligned address, otherwise
+   * the reading may cross a page boundary behind the end of data. */
   const unsigned shift = ((8 - tail) & 7) << 3;
   return fetch64_be_aligned(p) >> shift;
 #else
-- 
2.43.0


From efff5fa92dc591a074503aa5d6d319756b03898c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 2/3] fix: make t1ha0_funcptr callable before the library's
 constructor has run

Without indirect functions, t1ha0_funcptr was NULL until t1ha0_init() had
run, so t1ha0() called from an earlier constructor crashed.
---
 src/t1ha0.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/t1ha0.c b/src/t1ha0.c
index 635f19d..38b4bb4 100644
--- a/src/t1ha0.c
+++ b/src/t1ha0.c
@@ -438,14 +438,6 @@ __asm("\t.globl\tt1ha0\n\t.type\tt1ha0, "
       "%gnu_indirect_function\n\t.set\tt1ha0,t1ha0_resolve");
 #endif /* __has_attribute(__ifunc__) */
 
-#elif __GNUC_PREREQ(4, 0) || __has_attribute(__constructor__)
-
-uint64_t (*t1ha0_funcptr)(const void *, size_t, uint64_t);
-
-static __cold void __attribute__((__constructor__)) t1ha0_init(void) {
-  t1ha0_funcptr = t1ha0_resolve();
-}
-
 #else /* T1HA_USE_INDIRECT_FUNCTIONS */
 
 static __cold uint64_t t1ha0_proxy(const void *data, size_t len,
@@ -454,8 +446,15 @@ static __cold uint64_t t1ha0_proxy(const void *data, size_t len,
   return t1ha0_funcptr(data, len, seed);
 }
 
+/* Must be callable even before t1ha0_init(), e.g. from other constructors. */
 uint64_t (*t1ha0_funcptr)(const void *, size_t, uint64_t) = t1ha0_proxy;
 
+#if __GNUC_PREREQ(4, 0) || __has_attribute(__constructor__)
+static __cold void __attribute__((__constructor__)) t1ha0_init(void) {
+  t1ha0_funcptr = t1ha0_resolve();
+}
+#endif /* __constructor__ */
+
 #endif /* !T1HA_USE_INDIRECT_FUNCTIONS */
 #endif /* T1HA0_RUNTIME_SELECT */
 
-- 
2.43.0


From 0712b86dcf9be4d5d4f9bdd8f07ca231a401fb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 3/3] fix: don't use AVX when the OS has not enabled it in XCR0

OSXSAVE only tells that XGETBV may be executed. If XCR0 lacks the XMM or
YMM state bits (e.g. noxsave-like boot options, hypervisors, old kernels)
the AVX implementations of t1ha0 raised an illegal instruction.
---
 src/t1ha0.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/t1ha0.c b/src/t1ha0.c
index 38b4bb4..74898ef 100644
--- a/src/t1ha0.c
+++ b/src/t1ha0.c
@@ -382,6 +382,24 @@ __cold uint64_t t1ha_ia32cpu_features(void) {
     }
   }
 #endif
+
+  /* AVX is not usable until OS has enabled both of XMM and YMM states */
+  const uint32_t osxsave = UINT32_C(0x08000000), avx = UINT32_C(0x10000000);
+  if ((features & (osxsave | avx)) == (osxsave | avx)) {
+#if defined(__GNUC__)
+    uint32_t xcr0_lo, xcr0_hi;
+    /* xgetbv */
+    __asm__ __volatile__(".byte 0x0f, 0x01, 0xd0"
+                         : "=a"(xcr0_lo), "=d"(xcr0_hi)
+                         : "c"(0));
+    (void)xcr0_hi;
+    if ((xcr0_lo & 6) != 6)
+      features &= ~avx;
+#elif defined(_MSC_VER)
+    if ((_xgetbv(0) & 6) != 6)
+      features &= ~avx;
+#endif
+  }
   return features | (uint64_t)extended << 32;
 }
 #endif /* T1HA0_AESNI_AVAILABLE && __ia32__ */
-- 
2.43.0

