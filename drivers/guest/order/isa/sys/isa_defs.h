/* as Solaris and illumos have it: one of the two names, without a value */
#if (defined(__MIPSEB__) || defined(__sparc__) || defined(__s390x__) || defined(__ARMEB__) || defined(__AARCH64EB__) || defined(__m68k__) || (defined(__powerpc__) && !defined(__LITTLE_ENDIAN__)))
#define _BIG_ENDIAN
#else
#define _LITTLE_ENDIAN
#endif
