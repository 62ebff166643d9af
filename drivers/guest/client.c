/* A user of the public header only, C and C++. */
#include "t1ha.h"
#ifdef __cplusplus
extern "C"
#endif
uint64_t client(const void *p, size_t n, uint64_t s) {
  uint64_t r = 0, e;
#ifndef T1HA2_DISABLED
  t1ha_context_t c;
  t1ha2_init(&c, s, s + 1);
  t1ha2_update(&c, p, n);
  r ^= t1ha2_final(&c, &e) ^ e ^ t1ha2_atonce(p, n, s) ^ t1ha2_atonce128(&e, p, n, s) ^ e;
#endif
#ifndef T1HA1_DISABLED
  r ^= t1ha1_le(p, n, s) ^ t1ha1_be(p, n, s);
#endif
#ifndef T1HA0_DISABLED
  r ^= t1ha0(p, n, s) ^ t1ha0_32le(p, n, s) ^ t1ha0_32be(p, n, s);
#endif
  return r ^ (uint64_t)t1ha_selfcheck__all_enabled();
}
