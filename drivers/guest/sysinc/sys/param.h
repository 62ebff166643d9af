#include <endian.h>
