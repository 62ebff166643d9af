From b406e43e24a69eb769bfaae8a3f9fb8faf54c760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:44 +0000
Subject: [PATCH 01/11] fix: no oneshot 64-bit tail read where words are
 aligned to only 4

On 32-bit targets ALIGNMENT_64 is 4, so with T1HA_USE_FAST_ONESHOT_READ and
a T1HA_SYS_UNALIGNED_ACCESS other than EFFICIENT the aligned tail functions
read 8 bytes at a 4-aligned address for a tail of 1..4 bytes. When the data
ends at a page boundary this crosses into the next page and may fault.
---
 src/t1ha_bits.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/t1ha_bits.h b/src/t1ha_bits.h
index 93b6b51..70e103d 100644
--- a/src/t1ha_bits.h
+++ b/src/t1ha_bits.h
@@ -604,8 +604,10 @@ fetch64_le_unaligned(const void *v) {
 static __maybe_unused __always_inline uint64_t tail64_le_aligned(const void *v,
                                                                  size_t tail) {
   const uint8_t *const p = (const uint8_t *)v;
-#if T1HA_USE_FAST_ONESHOT_READ && !defined(__SANITIZE_ADDRESS__)
-  /* We can perform a 'oneshot' read, which is little bit faster. */
+#if T1HA_USE_FAST_ONESHOT_READ && ALIGNMENT_64 >= 8 &&                         \
+    !defined(__SANITIZE_ADDRESS__)
+  /* We can perform a 'oneshot' read, which is little bit faster.
+   * A 64-bit word aligned to less than 8 could cross a page boundary. */
   const unsigned shift = ((8 - tail) & 7) << 3;
   return fetch64_le_aligned(p) & ((~UINT64_C(0)) >> shift);
 #else
@@ -847,8 +849,10 @@ fetch64_be_unaligned(const void *v) {
 static __maybe_unused __always_inline uint64_t tail64_be_aligned(const void *v,
                                                                  size_t tail) {
   const uint8_t *const p = (const uint8_t *)v;
-#if T1HA_USE_FAST_ONESHOT_READ && !defined(__SANITIZE_ADDRESS__)
-  /* We can perform a 'oneshot' read, which is little bit faster. */
+#if T1HA_USE_FAST_ONESHOT_READ && ALIGNMENT_64 >= 8 &&                         \
+    !defined(__SANITIZE_ADDRESS__)
+  /* We can perform a 'oneshot' read, which is little bit faster.
+   * A 64-bit word aligned to less than 8 could cross a page boundary. */
   const unsigned shift = ((8 - tail) & 7) << 3;
   return fetch64_be_aligned(p) >> shift;
 #else
-- 
2.43.0


From ffaa3e89f84e33c8744b885b3c5850afbce25823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:44 +0000
Subject: [PATCH 02/11] fix: call of undefined fetch32_be() in
 tail64_be_unaligned()

The big-endian branch for efficient unaligned access did not build (or left
an unresolved symbol) when reading underside is unavailable, i.e. on 32-bit
big-endian machines or with T1HA_USE_FAST_ONESHOT_READ=0.
---
 src/t1ha_bits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t1ha_bits.h b/src/t1ha_bits.h
index 70e103d..6f75609 100644
--- a/src/t1ha_bits.h
+++ b/src/t1ha_bits.h
@@ -939,7 +939,7 @@ tail64_be_unaligned(const void *v, size_t tail) {
   case 3:
     return (uint32_t)fetch16_be_unaligned(p) << 8 | p[2];
   case 4:
-    return fetch32_be(p);
+    return fetch32_be_unaligned(p);
   case 5:
     return (uint64_t)fetch32_be_unaligned(p) << 8 | p[4];
   case 6:
-- 
2.43.0


From b48acef802cec21c9be9027674f1eeb95a58123f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:16 +0000
Subject: [PATCH 03/11] fix: t1ha0() via function pointer before the library's
 constructor

---
 src/t1ha0.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/t1ha0.c b/src/t1ha0.c
index 635f19d..cc2fec3 100644
--- a/src/t1ha0.c
+++ b/src/t1ha0.c
@@ -438,16 +438,10 @@ __asm("\t.globl\tt1ha0\n\t.type\tt1ha0, "
       "%gnu_indirect_function\n\t.set\tt1ha0,t1ha0_resolve");
 #endif /* __has_attribute(__ifunc__) */
 
-#elif __GNUC_PREREQ(4, 0) || __has_attribute(__constructor__)
-
-uint64_t (*t1ha0_funcptr)(const void *, size_t, uint64_t);
-
-static __cold void __attribute__((__constructor__)) t1ha0_init(void) {
-  t1ha0_funcptr = t1ha0_resolve();
-}
-
 #else /* T1HA_USE_INDIRECT_FUNCTIONS */
 
+/* The proxy serves the calls made before the constructor below, i.e. from
+ * other constructors (static initializers), and when it is not available. */
 static __cold uint64_t t1ha0_proxy(const void *data, size_t len,
                                    uint64_t seed) {
   t1ha0_funcptr = t1ha0_resolve();
@@ -456,6 +450,12 @@ static __cold uint64_t t1ha0_proxy(const void *data, size_t len,
 
 uint64_t (*t1ha0_funcptr)(const void *, size_t, uint64_t) = t1ha0_proxy;
 
+#if __GNUC_PREREQ(4, 0) || __has_attribute(__constructor__)
+static __cold void __attribute__((__constructor__)) t1ha0_init(void) {
+  t1ha0_funcptr = t1ha0_resolve();
+}
+#endif /* constructor */
+
 #endif /* !T1HA_USE_INDIRECT_FUNCTIONS */
 #endif /* T1HA0_RUNTIME_SELECT */
 
-- 
2.43.0


From 11296c879fa3fa56b18ffd432ae92629e081e305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:24 +0000
Subject: [PATCH 04/11] fix: export t1ha0_32le() and t1ha0_32be(), which the
 inline t1ha0() calls

---
 t1ha.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t1ha.h b/t1ha.h
index 498f0dd..8ea3b46 100644
--- a/t1ha.h
+++ b/t1ha.h
@@ -585,9 +585,9 @@ T1HA_API uint64_t t1ha1_be(const void *data, size_t length, uint64_t seed);
 #ifndef T1HA0_DISABLED
 
 /* The little-endian variant for 32-bit CPU. */
-uint64_t t1ha0_32le(const void *data, size_t length, uint64_t seed);
+T1HA_API uint64_t t1ha0_32le(const void *data, size_t length, uint64_t seed);
 /* The big-endian variant for 32-bit CPU. */
-uint64_t t1ha0_32be(const void *data, size_t length, uint64_t seed);
+T1HA_API uint64_t t1ha0_32be(const void *data, size_t length, uint64_t seed);
 
 /* Define T1HA0_AESNI_AVAILABLE to 0 for disable AES-NI support. */
 #ifndef T1HA0_AESNI_AVAILABLE
-- 
2.43.0


From d0729f633ec5f08a00fc5fa06ce05f0abb75652c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:16 +0000
Subject: [PATCH 05/11] fix: 64-bit words are read as aligned only when aligned
 to 8, except on x86

On 32-bit CPUs other than x86 an address aligned to 4 took the 'aligned'
path for 64-bit words. There a load of uint64_t can be a single instruction
that traps unless the address is aligned to 8 (LDD of SPARC V8, LDRD of ARM).
---
 src/t1ha_bits.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/t1ha_bits.h b/src/t1ha_bits.h
index 6f75609..db6a4da 100644
--- a/src/t1ha_bits.h
+++ b/src/t1ha_bits.h
@@ -90,7 +90,9 @@
 
 #define ALIGNMENT_16 2
 #define ALIGNMENT_32 4
-#if UINTPTR_MAX > 0xffffFFFFul || ULONG_MAX > 0xffffFFFFul
+#if UINTPTR_MAX > 0xffffFFFFul || ULONG_MAX > 0xffffFFFFul || !defined(__ia32__)
+/* A 32-bit CPU can have 64-bit loads as well, which trap unless the address
+ * is aligned to 8, e.g. LDD of SPARC and LDRD of ARM. */
 #define ALIGNMENT_64 8
 #else
 #define ALIGNMENT_64 4
-- 
2.43.0


From bc1eac65ff7eb551a366b19a6268292804a7503b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:48 +0000
Subject: [PATCH 06/11] fix: t1ha0_ia32aes_avx2() dropped the high half of the
 length on LLP64

On 64-bit Windows unsigned long is 32 bits wide, so the mask ~15ul cut
len to 32 bits and all but (len mod 4GiB) bytes were left out.
---
 src/t1ha0_ia32aes_b.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t1ha0_ia32aes_b.h b/src/t1ha0_ia32aes_b.h
index f8759dd..3411e5b 100644
--- a/src/t1ha0_ia32aes_b.h
+++ b/src/t1ha0_ia32aes_b.h
@@ -56,7 +56,7 @@ uint64_t T1HA_IA32AES_NAME(const void *data, size_t len, uint64_t seed) {
 
     const __m128i *v = (const __m128i *)data;
     const __m128i *const detent =
-        (const __m128i *)((const uint8_t *)data + (len & ~15ul));
+        (const __m128i *)((const uint8_t *)data + (len & ~(size_t)15));
     data = detent;
 
     if (len & 16) {
-- 
2.43.0


From b02f98c53e46725234d2921483beb12fd34349c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:48 +0000
Subject: [PATCH 07/11] fix: t1ha_ia32cpu_features() did not compile with
 clang-cl

clang always includes <cpuid.h>, whose __cpuid() takes five arguments,
but clang-cl does not define __GNUC__ and took the MSVC branch.
---
 src/t1ha0.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t1ha0.c b/src/t1ha0.c
index cc2fec3..34c8a39 100644
--- a/src/t1ha0.c
+++ b/src/t1ha0.c
@@ -361,7 +361,7 @@ uint64_t t1ha0_32be(const void *data, size_t len, uint64_t seed) {
 __cold uint64_t t1ha_ia32cpu_features(void) {
   uint32_t features = 0;
   uint32_t extended = 0;
-#ifdef __GNUC__
+#if defined(__GNUC__) || defined(__clang__)
   uint32_t eax, ebx, ecx, edx;
   const unsigned cpuid_max = __get_cpuid_max(0, NULL);
   if (cpuid_max >= 1) {
-- 
2.43.0


From 338ce5bb6cdd537cf56ef783220db347ebaeb23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:48 +0000
Subject: [PATCH 08/11] fix: no hidden visibility for Windows targets

clang refuses dllexport and dllimport on declarations which
have hidden visibility, so neither DLL nor client could be built.
---
 src/t1ha_bits.h | 2 +-
 t1ha.h          | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/t1ha_bits.h b/src/t1ha_bits.h
index db6a4da..bc8d6f2 100644
--- a/src/t1ha_bits.h
+++ b/src/t1ha_bits.h
@@ -519,7 +519,7 @@ static __always_inline const
 
 /***************************************************************************/
 
-#if __GNUC_PREREQ(4, 0)
+#if __GNUC_PREREQ(4, 0) && !defined(_WIN32) && !defined(__CYGWIN__)
 #pragma GCC visibility push(hidden)
 #endif /* __GNUC_PREREQ(4,0) */
 
diff --git a/t1ha.h b/t1ha.h
index 8ea3b46..4cab987 100644
--- a/t1ha.h
+++ b/t1ha.h
@@ -395,7 +395,7 @@
 #endif
 #endif /* T1HA_USE_INDIRECT_FUNCTIONS */
 
-#if __GNUC_PREREQ(4, 0)
+#if __GNUC_PREREQ(4, 0) && !defined(_WIN32) && !defined(__CYGWIN__)
 #pragma GCC visibility push(hidden)
 #endif /* __GNUC_PREREQ(4,0) */
 
@@ -714,6 +714,6 @@ static __force_inline uint64_t t1ha0(const void *data, size_t length,
 }
 #endif
 
-#if __GNUC_PREREQ(4, 0)
+#if __GNUC_PREREQ(4, 0) && !defined(_WIN32) && !defined(__CYGWIN__)
 #pragma GCC visibility pop
 #endif /* __GNUC_PREREQ(4,0) */
-- 
2.43.0


From a71d0ce3c2d1a819d94ac6f5ab96bc19b72c2281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:14 +0000
Subject: [PATCH 09/11] fix: let reads of data alias objects of any type

A program optimized together with the library (LTO, or the sources in its own
unit) writes keys by uint32_t, float, etc, but the library reads these by
64-bit words. Compilers concluded that the reads don't depend on the writes,
so that hashes of stale or uninitialized data were returned.
---
 src/t1ha_bits.h | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/t1ha_bits.h b/src/t1ha_bits.h
index bc8d6f2..14cc6a7 100644
--- a/src/t1ha_bits.h
+++ b/src/t1ha_bits.h
@@ -403,14 +403,26 @@ static __always_inline uint16_t bswap16(uint16_t v) { return v << 8 | v >> 8; }
 #endif
 #endif /* bswap16 */
 
+/* The data is read by words, regardless of the types by which it was written.
+ * A compiler should be told about this, since it sees both the reads and the
+ * writes when a program is optimized together with the library, e.g. by LTO. */
+#if __GNUC_PREREQ(3, 3) || __has_attribute(__may_alias__)
+#define __may_alias __attribute__((__may_alias__))
+#else
+#define __may_alias
+#endif
+typedef uint16_t __may_alias t1ha_raw16_t;
+typedef uint32_t __may_alias t1ha_raw32_t;
+typedef uint64_t __may_alias t1ha_raw64_t;
+
 #if defined(__ia32__) ||                                                       \
     T1HA_SYS_UNALIGNED_ACCESS == T1HA_UNALIGNED_ACCESS__EFFICIENT
 /* The __builtin_assume_aligned() leads gcc/clang to load values into the
  * registers, even when it is possible to directly use an operand from memory.
  * This can lead to a shortage of registers and a significant slowdown.
  * Therefore avoid unnecessary use of  __builtin_assume_aligned() for x86. */
-#define read_unaligned(ptr, bits) (*(const uint##bits##_t *__restrict)(ptr))
-#define read_aligned(ptr, bits) (*(const uint##bits##_t *__restrict)(ptr))
+#define read_unaligned(ptr, bits) (*(const t1ha_raw##bits##_t *__restrict)(ptr))
+#define read_aligned(ptr, bits) (*(const t1ha_raw##bits##_t *__restrict)(ptr))
 #endif /* __ia32__ */
 
 #ifndef read_unaligned
@@ -420,7 +432,7 @@ typedef struct {
   uint16_t unaligned_16;
   uint32_t unaligned_32;
   uint64_t unaligned_64;
-} __attribute__((__packed__)) t1ha_unaligned_proxy;
+} __attribute__((__packed__)) __may_alias t1ha_unaligned_proxy;
 #define read_unaligned(ptr, bits)                                              \
   (((const t1ha_unaligned_proxy *)((const uint8_t *)(ptr)-offsetof(            \
         t1ha_unaligned_proxy, unaligned_##bits)))                              \
@@ -429,7 +441,7 @@ typedef struct {
 #pragma warning(                                                               \
     disable : 4235) /* nonstandard extension used: '__unaligned'               \
                      * keyword not supported on this architecture */
-#define read_unaligned(ptr, bits) (*(const __unaligned uint##bits##_t *)(ptr))
+#define read_unaligned(ptr, bits) (*(const __unaligned t1ha_raw##bits##_t *)(ptr))
 #else
 #pragma pack(push, 1)
 typedef struct {
@@ -449,37 +461,38 @@ typedef struct {
 #ifndef read_aligned
 #if __GNUC_PREREQ(4, 8) || __has_builtin(__builtin_assume_aligned)
 #define read_aligned(ptr, bits)                                                \
-  (*(const uint##bits##_t *)__builtin_assume_aligned(ptr, ALIGNMENT_##bits))
+  (*(const t1ha_raw##bits##_t *)__builtin_assume_aligned(ptr,                  \
+                                                         ALIGNMENT_##bits))
 #elif (__GNUC_PREREQ(3, 3) || __has_attribute(__aligned__)) &&                 \
     !defined(__clang__)
 #define read_aligned(ptr, bits)                                                \
-  (*(const uint##bits##_t                                                      \
+  (*(const t1ha_raw##bits##_t                                                  \
      __attribute__((__aligned__(ALIGNMENT_##bits))) *)(ptr))
 #elif __has_attribute(__assume_aligned__)
 
 static __always_inline const
-    uint16_t *__attribute__((__assume_aligned__(ALIGNMENT_16)))
+    t1ha_raw16_t *__attribute__((__assume_aligned__(ALIGNMENT_16)))
     cast_aligned_16(const void *ptr) {
-  return (const uint16_t *)ptr;
+  return (const t1ha_raw16_t *)ptr;
 }
 static __always_inline const
-    uint32_t *__attribute__((__assume_aligned__(ALIGNMENT_32)))
+    t1ha_raw32_t *__attribute__((__assume_aligned__(ALIGNMENT_32)))
     cast_aligned_32(const void *ptr) {
-  return (const uint32_t *)ptr;
+  return (const t1ha_raw32_t *)ptr;
 }
 static __always_inline const
-    uint64_t *__attribute__((__assume_aligned__(ALIGNMENT_64)))
+    t1ha_raw64_t *__attribute__((__assume_aligned__(ALIGNMENT_64)))
     cast_aligned_64(const void *ptr) {
-  return (const uint64_t *)ptr;
+  return (const t1ha_raw64_t *)ptr;
 }
 
 #define read_aligned(ptr, bits) (*cast_aligned_##bits(ptr))
 
 #elif defined(_MSC_VER)
 #define read_aligned(ptr, bits)                                                \
-  (*(const __declspec(align(ALIGNMENT_##bits)) uint##bits##_t *)(ptr))
+  (*(const __declspec(align(ALIGNMENT_##bits)) t1ha_raw##bits##_t *)(ptr))
 #else
-#define read_aligned(ptr, bits) (*(const uint##bits##_t *)(ptr))
+#define read_aligned(ptr, bits) (*(const t1ha_raw##bits##_t *)(ptr))
 #endif
 #endif /* read_aligned */
 
-- 
2.43.0


From 3ebe5d2cbe192bed25d9a408c34d66bae0409016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:20 +0000
Subject: [PATCH 10/11] fix: hide the origin of data from compiler for
 'oneshot' reads

Such reads take bytes beside the data. If a program is optimized together with
the library, then a compiler sees the object being hashed, and assumes that a
read larger than the object doesn't touch it. So stores into the object were
dropped or delayed, and the hash was wrong.
---
 src/t1ha0.c     |  8 ++++++--
 src/t1ha_bits.h | 19 +++++++++++++++++--
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/t1ha0.c b/src/t1ha0.c
index 34c8a39..99cf4cd 100644
--- a/src/t1ha0.c
+++ b/src/t1ha0.c
@@ -47,10 +47,11 @@
 
 static __maybe_unused __always_inline uint32_t tail32_le_aligned(const void *v,
                                                                  size_t tail) {
-  const uint8_t *const p = (const uint8_t *)v;
+  const uint8_t *p = (const uint8_t *)v;
 #if T1HA_USE_FAST_ONESHOT_READ && !defined(__SANITIZE_ADDRESS__)
   /* We can perform a 'oneshot' read, which is little bit faster. */
   const unsigned shift = ((4 - tail) & 3) << 3;
+  hide_origin(p);
   return fetch32_le_aligned(p) & ((~UINT32_C(0)) >> shift);
 #else
   uint32_t r = 0;
@@ -99,6 +100,7 @@ tail32_le_unaligned(const void *v, size_t tail) {
    * for the reminder. */
   const unsigned offset = (4 - tail) & 3;
   const unsigned shift = offset << 3;
+  hide_origin(p);
   if (likely(can_read_underside(p, 4))) {
     p -= offset;
     return fetch32_le_unaligned(p) >> shift;
@@ -147,10 +149,11 @@ tail32_le_unaligned(const void *v, size_t tail) {
 
 static __maybe_unused __always_inline uint32_t tail32_be_aligned(const void *v,
                                                                  size_t tail) {
-  const uint8_t *const p = (const uint8_t *)v;
+  const uint8_t *p = (const uint8_t *)v;
 #if T1HA_USE_FAST_ONESHOT_READ && !defined(__SANITIZE_ADDRESS__)
   /* We can perform a 'oneshot' read, which is little bit faster. */
   const unsigned shift = ((4 - tail) & 3) << 3;
+  hide_origin(p);
   return fetch32_be_aligned(p) >> shift;
 #else
   switch (tail & 3) {
@@ -192,6 +195,7 @@ tail32_be_unaligned(const void *v, size_t tail) {
    * reminder. */
   const unsigned offset = (4 - tail) & 3;
   const unsigned shift = offset << 3;
+  hide_origin(p);
   if (likely(can_read_underside(p, 4))) {
     p -= offset;
     return fetch32_be_unaligned(p) & ((~UINT32_C(0)) >> shift);
diff --git a/src/t1ha_bits.h b/src/t1ha_bits.h
index 14cc6a7..30a498b 100644
--- a/src/t1ha_bits.h
+++ b/src/t1ha_bits.h
@@ -496,6 +496,17 @@ static __always_inline const
 #endif
 #endif /* read_aligned */
 
+/* A 'oneshot' read takes a whole word, i.e. including bytes beside the data.
+ * A compiler should not know which object is read, otherwise it assumes that
+ * such read doesn't touch objects smaller than the word, e.g. by LTO. */
+#if defined(__GNUC__) || defined(__clang__)
+#define hide_origin(ptr) __asm__("" : "+r"(ptr) : : "memory")
+#else
+#define hide_origin(ptr)                                                       \
+  do {                                                                         \
+  } while (0)
+#endif
+
 #ifndef prefetch
 #if (__GNUC_PREREQ(4, 0) || __has_builtin(__builtin_prefetch)) &&              \
     !defined(__ia32__)
@@ -618,12 +629,13 @@ fetch64_le_unaligned(const void *v) {
 
 static __maybe_unused __always_inline uint64_t tail64_le_aligned(const void *v,
                                                                  size_t tail) {
-  const uint8_t *const p = (const uint8_t *)v;
+  const uint8_t *p = (const uint8_t *)v;
 #if T1HA_USE_FAST_ONESHOT_READ && ALIGNMENT_64 >= 8 &&                         \
     !defined(__SANITIZE_ADDRESS__)
   /* We can perform a 'oneshot' read, which is little bit faster.
    * A 64-bit word aligned to less than 8 could cross a page boundary. */
   const unsigned shift = ((8 - tail) & 7) << 3;
+  hide_origin(p);
   return fetch64_le_aligned(p) & ((~UINT64_C(0)) >> shift);
 #else
   uint64_t r = 0;
@@ -707,6 +719,7 @@ tail64_le_unaligned(const void *v, size_t tail) {
    * for the reminder. */
   const unsigned offset = (8 - tail) & 7;
   const unsigned shift = offset << 3;
+  hide_origin(p);
   if (likely(can_read_underside(p, 8))) {
     p -= offset;
     return fetch64_le_unaligned(p) >> shift;
@@ -863,12 +876,13 @@ fetch64_be_unaligned(const void *v) {
 
 static __maybe_unused __always_inline uint64_t tail64_be_aligned(const void *v,
                                                                  size_t tail) {
-  const uint8_t *const p = (const uint8_t *)v;
+  const uint8_t *p = (const uint8_t *)v;
 #if T1HA_USE_FAST_ONESHOT_READ && ALIGNMENT_64 >= 8 &&                         \
     !defined(__SANITIZE_ADDRESS__)
   /* We can perform a 'oneshot' read, which is little bit faster.
    * A 64-bit word aligned to less than 8 could cross a page boundary. */
   const unsigned shift = ((8 - tail) & 7) << 3;
+  hide_origin(p);
   return fetch64_be_aligned(p) >> shift;
 #else
   switch (tail & 7) {
@@ -933,6 +947,7 @@ tail64_be_unaligned(const void *v, size_t tail) {
    * for the reminder. */
   const unsigned offset = (8 - tail) & 7;
   const unsigned shift = offset << 3;
+  hide_origin(p);
   if (likely(can_read_underside(p, 8))) {
     p -= offset;
     return fetch64_be_unaligned(p) & ((~UINT64_C(0)) >> shift);
-- 
2.43.0


From 447f2c8ffe0480383623dcca9e18598d0c3d8667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:10 +0000
Subject: [PATCH 11/11] fix: no paired loads of unaligned data on 32-bit ARM

ARMv7 reads unaligned words, so by default direct reads are used. But compilers
turn a direct read of 64-bit value into LDRD or LDM, which trap if an address
is not a multiple of 4.
---
 src/t1ha_bits.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/t1ha_bits.h b/src/t1ha_bits.h
index 30a498b..4ffb077 100644
--- a/src/t1ha_bits.h
+++ b/src/t1ha_bits.h
@@ -415,8 +415,11 @@ typedef uint16_t __may_alias t1ha_raw16_t;
 typedef uint32_t __may_alias t1ha_raw32_t;
 typedef uint64_t __may_alias t1ha_raw64_t;
 
+/* The 32-bit ARM is able to read unaligned words, but not the pairs of ones by
+ * LDRD and LDM, which compilers use for a direct read of 64-bit values. */
 #if defined(__ia32__) ||                                                       \
-    T1HA_SYS_UNALIGNED_ACCESS == T1HA_UNALIGNED_ACCESS__EFFICIENT
+    (T1HA_SYS_UNALIGNED_ACCESS == T1HA_UNALIGNED_ACCESS__EFFICIENT &&          \
+     !defined(__arm__))
 /* The __builtin_assume_aligned() leads gcc/clang to load values into the
  * registers, even when it is possible to directly use an operand from memory.
  * This can lead to a shortage of registers and a significant slowdown.
-- 
2.43.0

