/* A small model of a foreign machine's memory, for running the library's code
 * compiled for processors that are not here.  The cores (mips.c, sparc.c)
 * execute instructions; every data access goes through acc(), which knows what
 * a call may touch, and - on a strict machine - traps on a misaligned one. */
#ifndef MACHINE_H
#define MACHINE_H
#include <inttypes.h>
#include <setjmp.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define MEMSIZE (32u << 20)
#define ARENA (16u << 20)     /* messages are placed here */
#define MPG 4096u
#define STACKTOP (15u << 20)  /* below the arena */
#define STACKLOW (14u << 20)
#define HALT 0x00F00000u      /* returning there ends the call */

typedef struct {
  uint8_t *mem;
  bool be, wide, strict;
  uint64_t image_hi;            /* image occupies [4096, image_hi) */
  uint64_t lo, hi;              /* bytes of the arena that may be read */
  jmp_buf trap;
  char why[64];
  uint64_t steps, limit;
} machine_t;
extern machine_t M;

static inline void __attribute__((noreturn)) trap(const char *why, uint64_t a, unsigned size) {
  (void)a;
  snprintf(M.why, sizeof M.why, "%s%u", why, size);
  longjmp(M.trap, 1);
}
static inline void __attribute__((noreturn)) unsupported(uint32_t insn) {
  snprintf(M.why, sizeof M.why, "%08x", insn);
  longjmp(M.trap, 2);
}

/* may the bytes [a, a+size) be touched? */
static inline void permit(uint64_t a, unsigned size, bool store) {
  if (a >= ARENA && a < MEMSIZE) {
    if (store) trap("store-into-message", a, size);
    if (a < M.lo || a + size > M.hi) trap(a < M.lo ? "read-before" : "read-behind", a, size);
  } else if (a >= STACKLOW && a + size <= STACKTOP) {
  } else if (a >= 4096 && a + size <= M.image_hi) {
  } else trap(store ? "store-elsewhere" : "read-elsewhere", a, size);
}
static inline uint64_t load_raw(uint64_t a, unsigned size) {
  uint64_t v = 0;
  const uint8_t *p = M.mem + a;
  if (M.be) for (unsigned i = 0; i < size; ++i) v = v << 8 | p[i];
  else for (unsigned i = size; i-- > 0;) v = v << 8 | p[i];
  return v;
}
static inline void store_raw(uint64_t a, unsigned size, uint64_t v) {
  uint8_t *p = M.mem + a;
  if (M.be) for (unsigned i = size; i-- > 0; v >>= 8) p[i] = (uint8_t)v;
  else for (unsigned i = 0; i < size; ++i, v >>= 8) p[i] = (uint8_t)v;
}
static inline uint64_t load(uint64_t a, unsigned size) {
  if (M.strict && (a & (size - 1))) trap("misaligned-load-", a, size);
  permit(a, size, false);
  return load_raw(a, size);
}
static inline void store(uint64_t a, unsigned size, uint64_t v) {
  if (M.strict && (a & (size - 1))) trap("misaligned-store-", a, size);
  permit(a, size, true);
  store_raw(a, size, v);
}
static inline uint32_t fetch_insn(uint64_t pc) {
  if ((pc & 3) || pc < 4096 || pc + 4 > M.image_hi) trap("jump-astray", pc, 4);
  if (++M.steps > M.limit) trap("hang", pc, 0);
  return (uint32_t)load_raw(pc, 4);
}
/* runs the routine at entry until it returns to HALT */
void run_mips(uint64_t entry);
void run_sparc(uint64_t entry);
void run_arm(uint64_t entry);
void run_a64(uint64_t entry);
#endif
