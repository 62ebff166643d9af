/* What the headers make of the platform, for the preprocessor to tell. */
#include "src/t1ha_bits.h"
FACT order __BYTE_ORDER__ __ORDER_LITTLE_ENDIAN__ __ORDER_BIG_ENDIAN__ END
FACT unaligned T1HA_SYS_UNALIGNED_ACCESS END
FACT aes T1HA0_AESNI_AVAILABLE END
FACT rt T1HA0_RUNTIME_SELECT END
FACT ifunc T1HA_USE_INDIRECT_FUNCTIONS END
FACT zero t1ha0 END
