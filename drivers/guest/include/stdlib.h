#ifndef GUEST_STDLIB_H
#define GUEST_STDLIB_H
#include <stddef.h>
void abort(void) __attribute__((__noreturn__));
#endif
