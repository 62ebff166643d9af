/* as glibc and bionic have it */
#ifndef O_ENDIAN_H
#define O_ENDIAN_H
#define __LITTLE_ENDIAN 1234
#define __BIG_ENDIAN 4321
#define __PDP_ENDIAN 3412
#if (defined(__MIPSEB__) || defined(__sparc__) || defined(__s390x__) || defined(__ARMEB__) || defined(__AARCH64EB__) || defined(__m68k__) || (defined(__powerpc__) && !defined(__LITTLE_ENDIAN__)))
#define __BYTE_ORDER __BIG_ENDIAN
#else
#define __BYTE_ORDER __LITTLE_ENDIAN
#endif
#define LITTLE_ENDIAN __LITTLE_ENDIAN
#define BIG_ENDIAN __BIG_ENDIAN
#define BYTE_ORDER __BYTE_ORDER
#endif
