/* stand-in for the BSD and macOS header of this name */
#include "../endian.h"
