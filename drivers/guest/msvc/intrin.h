/* What the library takes from Microsoft's <intrin.h>. The compiler provides
 * these itself once they are declared, except for CPUID. */
#ifndef GUEST_INTRIN_H
#define GUEST_INTRIN_H
#if defined(_M_X64) || defined(_M_IX86)
#include <immintrin.h>
#endif
#define GUEST_INLINE static __inline __attribute__((__always_inline__, __unused__))
GUEST_INLINE unsigned short guest_swap16(unsigned short v) { return __builtin_bswap16(v); }
GUEST_INLINE unsigned long guest_swap32(unsigned long v) { return __builtin_bswap32(v); }
GUEST_INLINE unsigned __int64 guest_swap64(unsigned __int64 v) { return __builtin_bswap64(v); }
#define _byteswap_ushort guest_swap16
#define _byteswap_ulong guest_swap32
#define _byteswap_uint64 guest_swap64
unsigned int _rotr(unsigned int, int);
unsigned __int64 _rotr64(unsigned __int64, int);
#if defined(_M_X64)
unsigned __int64 _umul128(unsigned __int64, unsigned __int64, unsigned __int64 *);
unsigned __int64 __umulh(unsigned __int64, unsigned __int64);
#elif defined(_M_ARM)
void __prefetch(void *);
unsigned __int64 _arm_umull(unsigned int, unsigned int);
#elif defined(_M_ARM64)
void __prefetch(void *);
unsigned __int64 __umulh(unsigned __int64, unsigned __int64);
#else
unsigned __int64 __emulu(unsigned int, unsigned int);
#endif
#if defined(_M_X64) || defined(_M_IX86)
GUEST_INLINE void guest_cpuidex(int info[4], int leaf, int sub) {
  __asm__ volatile("cpuid" : "=a"(info[0]), "=b"(info[1]), "=c"(info[2]), "=d"(info[3]) : "0"(leaf), "2"(sub));
}
#define __cpuidex guest_cpuidex
#define __cpuid(info, leaf) guest_cpuidex(info, leaf, 0)
#endif
#endif
