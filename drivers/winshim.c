/* The library's functions, compiled as 64-bit Windows has them (another
 * calling convention, 32-bit long), under their own names for the drivers. */
#include "t1ha.h"
#include <stdlib.h>
#include <string.h>
#ifdef VERIF_USER
#undef t1ha0
#endif
#define W __attribute__((__ms_abi__))

#define HASH(name)                                                             \
  W uint64_t win_##name(const void *, size_t, uint64_t);                       \
  uint64_t name(const void *p, size_t n, uint64_t s) { return win_##name(p, n, s); }
#define SELF(name)                                                             \
  W int win_##name(void);                                                      \
  int name(void) { return win_##name(); }

#ifndef T1HA2_DISABLED
HASH(t1ha2_atonce)
W uint64_t win_t1ha2_atonce128(uint64_t *, const void *, size_t, uint64_t);
uint64_t t1ha2_atonce128(uint64_t *__restrict e, const void *__restrict p, size_t n, uint64_t s) {
  return win_t1ha2_atonce128(e, p, n, s);
}
W void win_t1ha2_init(t1ha_context_t *, uint64_t, uint64_t);
void t1ha2_init(t1ha_context_t *c, uint64_t x, uint64_t y) { win_t1ha2_init(c, x, y); }
W void win_t1ha2_update(t1ha_context_t *, const void *, size_t);
void t1ha2_update(t1ha_context_t *__restrict c, const void *__restrict p, size_t n) { win_t1ha2_update(c, p, n); }
W uint64_t win_t1ha2_final(t1ha_context_t *, uint64_t *);
uint64_t t1ha2_final(t1ha_context_t *__restrict c, uint64_t *__restrict e) { return win_t1ha2_final(c, e); }
#endif
#ifndef T1HA1_DISABLED
HASH(t1ha1_le)
HASH(t1ha1_be)
#endif
#ifndef T1HA0_DISABLED
HASH(t1ha0_32le)
HASH(t1ha0_32be)
#endif
#if !defined(T1HA0_DISABLED) && T1HA0_AESNI_AVAILABLE
HASH(t1ha0_ia32aes_noavx)
HASH(t1ha0_ia32aes_avx)
HASH(t1ha0_ia32aes_avx2)
#endif
#if !defined(VERIF_USER) && !defined(T1HA0_DISABLED)
HASH(verif_t1ha0)
uint64_t t1ha0(const void *p, size_t n, uint64_t s) { return verif_t1ha0(p, n, s); }
#endif
SELF(t1ha_selfcheck__all_enabled)
#ifndef T1HA2_DISABLED
SELF(t1ha_selfcheck__t1ha2_atonce)
SELF(t1ha_selfcheck__t1ha2_atonce128)
SELF(t1ha_selfcheck__t1ha2_stream)
SELF(t1ha_selfcheck__t1ha2)
#endif
#ifndef T1HA1_DISABLED
SELF(t1ha_selfcheck__t1ha1_le)
SELF(t1ha_selfcheck__t1ha1_be)
SELF(t1ha_selfcheck__t1ha1)
#endif
#ifndef T1HA0_DISABLED
SELF(t1ha_selfcheck__t1ha0_32le)
SELF(t1ha_selfcheck__t1ha0_32be)
#endif
#if !defined(T1HA0_DISABLED) && T1HA0_AESNI_AVAILABLE
SELF(t1ha_selfcheck__t1ha0_ia32aes_noavx)
SELF(t1ha_selfcheck__t1ha0_ia32aes_avx)
SELF(t1ha_selfcheck__t1ha0_ia32aes_avx2)
#endif
#ifndef T1HA0_DISABLED
SELF(t1ha_selfcheck__t1ha0)
#endif

/* what compilers call behind the scenes */
W void *win_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
W void *win_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
W void *win_memset(void *d, int c, size_t n) { return memset(d, c, n); }
W int win_memcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
W void win_abort(void) { abort(); }
W void win___assert_fail(void) { abort(); }
__asm__(".pushsection .text\n.globl win____chkstk_ms\n.globl win___chkstk\nwin____chkstk_ms:\nwin___chkstk:\n\tret\n.popsection\n");
