/* Elbrus has the SSE and AVX intrinsics without being an x86. */
#define __x86_64__ 1
#include_next <x86intrin.h>
#undef __x86_64__
