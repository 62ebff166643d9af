#ifndef GUEST_ENDIAN_H
#define GUEST_ENDIAN_H
#define __LITTLE_ENDIAN 1234
#define __BIG_ENDIAN 4321
#define LITTLE_ENDIAN 1234
#define BIG_ENDIAN 4321
/* from the machine: the compiler may be one that does not say */
#if (defined(__BYTE_ORDER__) && __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__) && defined(__ORDER_BIG_ENDIAN__) || \
    !defined(__BYTE_ORDER__) && (defined(__MIPSEB__) || defined(__sparc__) || defined(__s390x__) || defined(__ARMEB__) || \
                                 defined(__AARCH64EB__) || defined(__m68k__) || (defined(__powerpc__) && !defined(__LITTLE_ENDIAN__)))
#define __BYTE_ORDER 4321
#define BYTE_ORDER 4321
#else
#define __BYTE_ORDER 1234
#define BYTE_ORDER 1234
#endif
#endif
