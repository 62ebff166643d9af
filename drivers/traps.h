/* Breakpoints on the entry of the library's functions: which of them does a
 * call really execute?  Each breakpoint is taken once and then removed, until
 * traps_arm() sets all of them again. */
#ifndef VERIF_TRAPS_H
#define VERIF_TRAPS_H
#include "common.h"
#include <ucontext.h>
typedef struct { const char *name; uint8_t *at; uint8_t old; bool armed; } trap_t;
static trap_t traps[32];
static unsigned ntraps;
static const char *entered[64];
static unsigned nentered;
/* optional hook: called in the handler with the trap taken */
static void (*trap_hook)(trap_t *, ucontext_t *);

static void writable(void *p) {
  uint8_t *b = (uint8_t *)((uintptr_t)p & ~(uintptr_t)(PG - 1));
  if (mprotect(b, 2 * PG, PROT_READ | PROT_WRITE | PROT_EXEC) && mprotect(b, PG, PROT_READ | PROT_WRITE | PROT_EXEC)) { perror("mprotect"); exit(3); }
}
static void trap_add(const char *name, void *fn) {
  for (unsigned i = 0; i < ntraps; ++i)
    if (traps[i].at == (uint8_t *)fn) { /* two names, one function */
      fprintf(stderr, "%s is %s\n", name, traps[i].name);
      return;
    }
  writable(fn);
  trap_t t = {name, (uint8_t *)fn, *(uint8_t *)fn, false};
  traps[ntraps++] = t;
}
static void traps_arm(void) {
  nentered = 0;
  for (unsigned i = 0; i < ntraps; ++i) { *(volatile uint8_t *)traps[i].at = 0xCC; traps[i].armed = true; }
}
static void traps_off(void) {
  for (unsigned i = 0; i < ntraps; ++i) { *(volatile uint8_t *)traps[i].at = traps[i].old; traps[i].armed = false; }
}
#ifdef __x86_64__
#define UC_PC(u) ((u)->uc_mcontext.gregs[REG_RIP])
#define UC_SP(u) ((u)->uc_mcontext.gregs[REG_RSP])
#else
#define UC_PC(u) ((u)->uc_mcontext.gregs[REG_EIP])
#define UC_SP(u) ((u)->uc_mcontext.gregs[REG_ESP])
#endif
static void on_trap(int sig, siginfo_t *si, void *ucv) {
  ucontext_t *uc = ucv;
  uint8_t *pc = (uint8_t *)UC_PC(uc) - 1;
  for (unsigned i = 0; i < ntraps; ++i)
    if (traps[i].armed && traps[i].at == pc) {
      *(volatile uint8_t *)pc = traps[i].old;
      traps[i].armed = false;
      UC_PC(uc) = (greg_t)(uintptr_t)pc;
      if (nentered < 64) entered[nentered++] = traps[i].name;
      if (trap_hook) trap_hook(&traps[i], uc);
      return;
    }
  on_fault(sig, si, ucv);
}
static void traps_setup(void) {
  fault_setup();
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_trap;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  sigaction(SIGTRAP, &sa, NULL);
}
/* where a function of the library really is: on 64-bit Windows behind a shim */
#ifdef VERIF_WIN
#define TRAP_AT(f) (void *)win_##f
extern uint8_t win_t1ha2_atonce[], win_t1ha2_atonce128[], win_t1ha2_init[], win_t1ha2_update[], win_t1ha2_final[],
    win_t1ha1_le[], win_t1ha1_be[], win_t1ha0_32le[], win_t1ha0_32be[], win_t1ha0_ia32aes_noavx[], win_t1ha0_ia32aes_avx[],
    win_t1ha0_ia32aes_avx2[];
#else
#define TRAP_AT(f) (void *)f
#endif
static void trap_add_all(void) {
#ifndef T1HA2_DISABLED
  trap_add("2a64", TRAP_AT(t1ha2_atonce));
  trap_add("2a128", TRAP_AT(t1ha2_atonce128));
  trap_add("init", TRAP_AT(t1ha2_init));
  trap_add("update", TRAP_AT(t1ha2_update));
  trap_add("final", TRAP_AT(t1ha2_final));
#endif
#ifndef T1HA1_DISABLED
  trap_add("1le", TRAP_AT(t1ha1_le));
  trap_add("1be", TRAP_AT(t1ha1_be));
#endif
#ifndef T1HA0_DISABLED
  trap_add("0le", TRAP_AT(t1ha0_32le));
  trap_add("0be", TRAP_AT(t1ha0_32be));
#if T1HA0_AESNI_AVAILABLE
  trap_add("aes", TRAP_AT(t1ha0_ia32aes_noavx));
  trap_add("avx", TRAP_AT(t1ha0_ia32aes_avx));
  trap_add("avx2", TRAP_AT(t1ha0_ia32aes_avx2));
#endif
#endif
}
#endif
