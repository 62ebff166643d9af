"""Build configurations of the library."""
from vt import Config

ONESHOT0 = "T1HA_USE_FAST_ONESHOT_READ=0"


def UN(k):
    return f"T1HA_SYS_UNALIGNED_ACCESS={k}"


NATIVE = Config("native")
M32 = Config("m32", m32=True)
CALM = Config("calm", defs=[ONESHOT0])
CALM32 = Config("calm32", m32=True, defs=[ONESHOT0])
UNABLE = Config("unable", defs=[UN(0)])
SLOW = Config("slow", defs=[UN(1)])
UNABLE32 = Config("unable32", m32=True, defs=[UN(0)])
SLOW32 = Config("slow32", m32=True, defs=[UN(1)])
UNABLE_CALM = Config("unable-calm", defs=[UN(0), ONESHOT0])
SLOW_CALM32 = Config("slow-calm32", m32=True, defs=[UN(1), ONESHOT0])
UNABLE_CALM32 = Config("unable-calm32", m32=True, defs=[UN(0), ONESHOT0])
SLOW_CALM = Config("slow-calm", defs=[UN(1), ONESHOT0])
O0 = Config("O0-assert", opt="-O0", ndebug=False)
CLANG = Config("clang", cc="clang", opt="-O2")
CLANG32 = Config("clang32", cc="clang", opt="-O2", m32=True)
OS_UNABLE = Config("Os-unable-assert", opt="-Os", ndebug=False, defs=[UN(0)])
# instrumented code cannot run in an indirect function's resolver, which runs before the sanitiser is set up
NOIFUNC = "T1HA_USE_INDIRECT_FUNCTIONS=0"
ASAN = Config("asan", opt="-O1", defs=[NOIFUNC], extra=["-fsanitize=address", "-fsanitize-recover=address", "-g"])
# compiler without a 128-bit type or add-with-carry builtins: portable arithmetic on 64-bit
NOINT128 = Config("noint128", extra=["-U__SIZEOF_INT128__"])

# as 64-bit Windows has it: 32-bit long, another calling convention
WIN64 = Config("win64", opt="-O2", kind="mingw64")

VALUE_SET = [NATIVE, M32, CALM, UNABLE_CALM32, SLOW, O0, CLANG, CLANG32, NOINT128, UNABLE, WIN64]



EXTRA_SET = [CALM32, UNABLE32, SLOW32, UNABLE_CALM, SLOW_CALM32, SLOW_CALM, OS_UNABLE,
             Config("clang-O3-unable32", cc="clang", opt="-O3", m32=True, defs=[UN(0)]),
             Config("gcc-O1-native", opt="-O1", extra=["-march=native"], aes=True)]
