/* The library's interface, fetched by name from a library loaded at run time
 * (path in VERIF_DL, mode in VERIF_DLMODE). */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "t1ha.h"

static void *sym(const char *name) {
  static void *h;
  if (!h) {
    const char *m = getenv("VERIF_DLMODE");
    h = dlopen(getenv("VERIF_DL"), (m && !strcmp(m, "now") ? RTLD_NOW : RTLD_LAZY) | (m && !strcmp(m, "global") ? RTLD_GLOBAL : RTLD_LOCAL));
    if (!h) { printf("DLOPEN %s\n", dlerror()); fflush(stdout); _Exit(4); }
  }
  void *p = dlsym(h, name);
  if (!p) { printf("MISSING %s\n", name); fflush(stdout); _Exit(4); }
  return p;
}
#define SH(ret, name, args, call)                                              \
  ret name args {                                                              \
    static ret(*p) args;                                                       \
    if (!p) *(void **)&p = sym(#name);                                         \
    return p call;                                                             \
  }
#define SELF(name) SH(int, t1ha_selfcheck__##name, (void), ())
#define HASH(name) SH(uint64_t, name, (const void *d, size_t n, uint64_t s), (d, n, s))

SELF(all_enabled)
#ifndef T1HA2_DISABLED
SELF(t1ha2_atonce)
SELF(t1ha2_atonce128)
SELF(t1ha2_stream)
SELF(t1ha2)
HASH(t1ha2_atonce)
SH(uint64_t, t1ha2_atonce128, (uint64_t *e, const void *d, size_t n, uint64_t s), (e, d, n, s))
SH(void, t1ha2_init, (t1ha_context_t *c, uint64_t x, uint64_t y), (c, x, y))
SH(void, t1ha2_update, (t1ha_context_t *c, const void *d, size_t n), (c, d, n))
SH(uint64_t, t1ha2_final, (t1ha_context_t *c, uint64_t *e), (c, e))
#endif
#ifndef T1HA1_DISABLED
SELF(t1ha1_le)
SELF(t1ha1_be)
SELF(t1ha1)
HASH(t1ha1_le)
HASH(t1ha1_be)
#endif
#ifndef T1HA0_DISABLED
SELF(t1ha0_32le)
SELF(t1ha0_32be)
SELF(t1ha0)
HASH(t1ha0_32le)
HASH(t1ha0_32be)
#if T1HA0_AESNI_AVAILABLE
SELF(t1ha0_ia32aes_noavx)
SELF(t1ha0_ia32aes_avx)
SELF(t1ha0_ia32aes_avx2)
#endif
#if T1HA0_RUNTIME_SELECT
SH(t1ha0_function_t, t1ha0_resolve, (void), ())
#if T1HA_USE_INDIRECT_FUNCTIONS
HASH(t1ha0)
#else
static uint64_t first(const void *d, size_t n, uint64_t s) {
  t1ha0_funcptr = *(uint64_t(**)(const void *, size_t, uint64_t))sym("t1ha0_funcptr");
  return t1ha0_funcptr(d, n, s);
}
uint64_t (*t1ha0_funcptr)(const void *, size_t, uint64_t) = first;
#endif
#endif
#endif
