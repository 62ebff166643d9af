#ifndef GUEST_STDIO_H
#define GUEST_STDIO_H
#include <stddef.h>
#endif
