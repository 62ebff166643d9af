/* Shared by the drivers: message generators (the same as spec/Messages.tla),
 * guarded arenas, fault capture. */
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "t1ha.h"
#include <errno.h>
#include <fcntl.h>
#include <inttypes.h>
#include <setjmp.h>
#include <signal.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#ifndef WITH_ASAN
#ifdef __SANITIZE_ADDRESS__
#define WITH_ASAN 1
#else
#define WITH_ASAN 0
#endif
#endif
#if WITH_ASAN
#include <sanitizer/asan_interface.h>
#endif

static inline uint8_t gen_byte(char g, unsigned s, size_t i) {
  switch (g) {
  case 'z': return 0;
  case 'f': return 255;
  case 'c': return (uint8_t)(i + s);
  case 'h': return (i % 64) == (s % 64) ? 128 : 0;
  case 'r': i &= 1048575; /* fall through */
  case 'p': {
    unsigned x = (unsigned)((i + (size_t)s * 131) % 32749);
    unsigned y = (unsigned)((i / 32749) % 1021);
    return (uint8_t)((x * x) % 65521 + x * 167 + y * 7919 + (x / 256) * 31);
  }
  }
  abort();
}

static int hexval(int c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  return -1;
}

/* message text: "<g>:<salt>:<len>" or "x:0:<hex>" ("-" for no bytes) */
typedef struct { uint8_t *b; size_t n, cap; } msg_t;
static void parse_msg(msg_t *m, const char *t) {
  char g = t[0];
  char *p;
  unsigned s = (unsigned)strtoul(t + 2, &p, 10);
  ++p;
  size_t n;
  if (g == 'x') n = (*p == '-') ? 0 : strlen(p) / 2;
  else n = strtoull(p, NULL, 10);
  if (n + 1 > m->cap) {
    m->cap = n * 2 + 64;
    m->b = realloc(m->b, m->cap);
  }
  m->n = n;
  for (size_t i = 0; i < n; ++i)
    m->b[i] = (g == 'x') ? (uint8_t)(hexval(p[2 * i]) << 4 | hexval(p[2 * i + 1])) : gen_byte(g, s, i);
}

/* xorshift for placement noise only; never decides what a result should be */
static uint64_t noise_state = 88172645463325252ULL;
static inline uint64_t noise(void) {
  noise_state ^= noise_state << 13;
  noise_state ^= noise_state >> 7;
  noise_state ^= noise_state << 17;
  return noise_state;
}

/* ---- guarded arena: npages usable pages between two inaccessible ones ---- */
#define PG 4096u
typedef struct { uint8_t *lo, *hi; } arena_t;
static arena_t arena_make(size_t npages) {
  uint8_t *p = mmap(NULL, (npages + 2) * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  if (mprotect(p + PG, npages * PG, PROT_READ | PROT_WRITE)) { perror("mprotect"); exit(3); }
  arena_t a = {p + PG, p + PG + npages * PG};
  return a;
}

/* ---- fault capture ---- */
static sigjmp_buf fault_jmp;
static volatile sig_atomic_t fault_armed;
static volatile sig_atomic_t fault_sig;
static void *volatile fault_addr;
static void (*volatile hang_report)(void);
static void on_fault(int sig, siginfo_t *si, void *uc) {
  (void)uc;
  if (fault_armed) {
    fault_armed = 0;
    fault_sig = sig;
    fault_addr = si->si_addr;
    siglongjmp(fault_jmp, 1);
  }
  signal(sig, SIG_DFL);
  raise(sig);
}
static void on_alarm(int sig) {
  (void)sig;
  if (hang_report) hang_report();
  _exit(0);
}
static void fault_setup(void) {
  static uint8_t alt[65536];
  stack_t ss = {.ss_sp = alt, .ss_size = sizeof(alt)};
  sigaltstack(&ss, NULL);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_fault;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  int sigs[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTRAP, SIGABRT};
  for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; ++i) sigaction(sigs[i], &sa, NULL);
  signal(SIGALRM, on_alarm);
}
#define GUARDED(stmt)                                                          \
  (sigsetjmp(fault_jmp, 0) ? 1 : ((fault_armed = 1), (stmt), (fault_armed = 0), 0))

/* ---- hash functions under test, by name ---- */
typedef enum { K_PLAIN, K_128, K_S64, K_S128 } kind_t;
typedef struct {
  const char *name;
  kind_t kind;
  uint64_t (*fn)(const void *, size_t, uint64_t);
} fn_t;
#if !defined(T1HA0_DISABLED)
static uint64_t call_t1ha0(const void *d, size_t n, uint64_t s) { return t1ha0(d, n, s); }
#endif
static const fn_t fns[] = {
#ifndef T1HA2_DISABLED
    {"2a64", K_PLAIN, t1ha2_atonce},
    {"2a128", K_128, NULL},
    {"2s64", K_S64, NULL},
    {"2s128", K_S128, NULL},
#endif
#ifndef T1HA1_DISABLED
    {"1le", K_PLAIN, t1ha1_le},
    {"1be", K_PLAIN, t1ha1_be},
#endif
#ifndef T1HA0_DISABLED
    {"t1ha0", K_PLAIN, call_t1ha0},
    {"0le", K_PLAIN, t1ha0_32le},
    {"0be", K_PLAIN, t1ha0_32be},
#ifndef VIA_SHARED
#if T1HA0_AESNI_AVAILABLE
    {"aes", K_PLAIN, t1ha0_ia32aes_noavx},
    {"avx", K_PLAIN, t1ha0_ia32aes_avx},
    {"avx2", K_PLAIN, t1ha0_ia32aes_avx2},
#endif
#endif
#endif
    {NULL, K_PLAIN, NULL}};
static const fn_t *find_fn(const char *name) {
  for (const fn_t *f = fns; f->name; ++f)
    if (!strcmp(f->name, name)) return f;
  return NULL;
}
#endif
