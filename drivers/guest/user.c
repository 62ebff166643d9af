/* A user of the library, compiled by the toolchain at hand: what t1ha.h makes
 * of t1ha0() there, and the sizes it gives the types. */
#include "t1ha.h"
#ifndef T1HA0_DISABLED
uint64_t verif_t1ha0(const void *p, size_t n, uint64_t s) { return t1ha0(p, n, s); }
#if T1HA0_RUNTIME_SELECT
t1ha0_function_t verif_resolve(void) { return t1ha0_resolve(); }
#endif
#endif
#ifndef T1HA2_DISABLED
unsigned verif_context_size(void) { return (unsigned)sizeof(t1ha_context_t); }
#endif
