/* as OpenBSD and macOS have it */
#ifndef O_MACHINE_H
#define O_MACHINE_H
#define _LITTLE_ENDIAN 1234
#define _BIG_ENDIAN 4321
#define _PDP_ENDIAN 3412
#if (defined(__MIPSEB__) || defined(__sparc__) || defined(__s390x__) || defined(__ARMEB__) || defined(__AARCH64EB__) || defined(__m68k__) || (defined(__powerpc__) && !defined(__LITTLE_ENDIAN__)))
#define _BYTE_ORDER _BIG_ENDIAN
#else
#define _BYTE_ORDER _LITTLE_ENDIAN
#endif
#define LITTLE_ENDIAN _LITTLE_ENDIAN
#define BIG_ENDIAN _BIG_ENDIAN
#define BYTE_ORDER _BYTE_ORDER
#endif
