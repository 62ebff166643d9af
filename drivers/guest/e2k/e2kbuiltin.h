/* The instructions of Elbrus that the library uses, as functions. */
#ifndef GUEST_E2KBUILTIN_H
#define GUEST_E2KBUILTIN_H
#include <stdint.h>
#define E2K static __inline __attribute__((__always_inline__, __unused__))
E2K uint64_t guest_e2k_umulhd(uint64_t a, uint64_t b) { return (uint64_t)((unsigned __int128)a * b >> 64); }
E2K uint64_t guest_e2k_addcd(uint64_t a, uint64_t b, uint64_t c) { return a + b + (c & 1); }
E2K uint64_t guest_e2k_addcd_c(uint64_t a, uint64_t b, uint64_t c) {
  return (uint64_t)(((unsigned __int128)a + b + (c & 1)) >> 64);
}
#define __builtin_e2k_umulhd guest_e2k_umulhd
#define __builtin_e2k_addcd guest_e2k_addcd
#define __builtin_e2k_addcd_c guest_e2k_addcd_c
#define __builtin_e2k_ld_64s_be(p) ((int64_t)__builtin_bswap64(*(const uint64_t *)(p)))
#define __builtin_e2k_ld_32u_be(p) __builtin_bswap32(*(const uint32_t *)(p))
#endif
