/* What does t1ha0 execute, what does the resolver return, what do the
 * self-checks execute, on the processor that mockcpu.S describes?
 * Output lines:
 *   EARLY <n> <value>                  a call before the library's constructor
 *   RESOLVE <name|other|null>
 *   CALL <early|call|ptr> <n> <value> <entered,...|->
 *   SELF <check> <rc> <entered,...|->
 * a fault is reported in the place of the value or rc. */
#include "traps.h"
#ifdef VERIF_USER /* t1ha0() as the library's toolchain, not ours, compiles it (guest/user.c) */
#ifdef VERIF_WIN
#define FN_ABI __attribute__((__ms_abi__))
FN_ABI uint64_t win_verif_t1ha0(const void *, size_t, uint64_t);
#undef t1ha0
#define t1ha0 win_verif_t1ha0
#define t1ha0_resolve win_verif_resolve
#else
uint64_t verif_t1ha0(const void *, size_t, uint64_t);
#undef t1ha0
#define t1ha0 verif_t1ha0
#define t1ha0_resolve verif_resolve
#endif
#endif
#ifndef FN_ABI
#define FN_ABI
#endif
#ifdef VERIF_USER
FN_ABI void *t1ha0_resolve(void);
#endif

static const size_t lens[] = {0, 3, 21, 64, 200};
#define SALT 7
#define SEED UINT64_C(0x123456789abcdef1)
static uint8_t buf[256];
static void fill(size_t n) {
  for (size_t i = 0; i < n; ++i) buf[i] = gen_byte('p', SALT, i);
}
#ifndef T1HA0_DISABLED
static uint64_t early;
__attribute__((constructor(101))) static void before_everything(void) {
  fill(21);
  early = t1ha0(buf, 21, SEED);
}
static volatile uint64_t result;
static void report(const char *kind, size_t n, int fault) {
  printf("CALL %s %zu ", kind, n);
  if (fault) printf("fault-%d", (int)fault_sig);
  else printf("%016" PRIx64, (uint64_t)result);
  printf(" ");
  for (unsigned i = 0; i < nentered; ++i) printf("%s%s", i ? "," : "", entered[i]);
  puts(nentered ? "" : "-");
  fflush(stdout);
}
#endif
static volatile int rcv;
static void self(const char *name, int (*fn)(void)) {
  traps_arm();
  int fault = GUARDED(rcv = fn());
  traps_off();
  printf("SELF %s ", name);
  if (fault) printf("fault-%d", (int)fault_sig);
  else printf("%d", (int)rcv);
  printf(" ");
  for (unsigned i = 0; i < nentered; ++i) printf("%s%s", i ? "," : "", entered[i]);
  puts(nentered ? "" : "-");
  fflush(stdout);
}
#define SELF(f) self(#f, f)

int main(void) {
  traps_setup();
  trap_add_all();
#ifndef T1HA0_DISABLED
  nentered = 0;
  result = early;
  report("early", 21, 0);
#if T1HA0_RUNTIME_SELECT
  FN_ABI uint64_t (*volatile fp)(const void *, size_t, uint64_t) = (void *)t1ha0_resolve();
  const char *nm = fp ? "other" : "null";
  for (unsigned i = 0; i < ntraps; ++i)
    if ((void *)fp == (void *)traps[i].at) nm = traps[i].name;
  printf("RESOLVE %s\n", nm);
#endif
  for (int round = 0; round < 2; ++round)
    for (unsigned k = 0; k < sizeof lens / sizeof *lens; ++k) {
      fill(lens[k]);
      traps_arm();
      int f = GUARDED(result = t1ha0(buf, lens[k], SEED));
      traps_off();
      report("call", lens[k], f);
#if T1HA0_RUNTIME_SELECT
      traps_arm();
      f = fp ? GUARDED(result = fp(buf, lens[k], SEED)) : (fault_sig = SIGSEGV, 1);
      traps_off();
      report("ptr", lens[k], f);
#endif
    }
  SELF(t1ha_selfcheck__t1ha0);
#endif
#ifndef T1HA1_DISABLED
  SELF(t1ha_selfcheck__t1ha1);
#endif
#ifndef T1HA2_DISABLED
  SELF(t1ha_selfcheck__t1ha2);
#endif
  SELF(t1ha_selfcheck__all_enabled);
  puts("END");
  return 0;
}
