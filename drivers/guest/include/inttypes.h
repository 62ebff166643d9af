#include <stdint.h>
#ifndef PRIx64
#define PRIx64 "llx"
#endif
