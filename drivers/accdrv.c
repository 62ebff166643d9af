/* Makes calls whose memory accesses are recorded by valgrind's lackey tool.
 * Everything of interest lies at fixed addresses; the start and the end of a
 * call are marked by stores, and one store tells the recorder the stack.
 * Prints one line per call, in order:
 *   CALL <fn> <offset of the message in the arena> <length>
 * argv: function, first length, last length, step, "all" | "some" placements */
#include "common.h"
#define MARK ((volatile uint32_t *)(uintptr_t)0x10000000)
#define ARENA ((uint8_t *)(uintptr_t)0x20000000)
#define CTXP ((uint8_t *)(uintptr_t)0x30000000)
#define EXTP ((uint8_t *)(uintptr_t)0x31000000)
static void map(uint8_t *p, size_t n) {
  if (mmap(p, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) != p) { perror("mmap"); exit(3); }
}
#define sink (*(volatile uint64_t *)(uintptr_t)0x10000100)
static const fn_t *f;
static int fill_level, finkind;
static void one(size_t off, size_t n) {
  uint8_t *p = ARENA + off;
  printf("CALL %zu %zu\n", off, n);
#ifndef T1HA2_DISABLED
  t1ha_context_t *ctx = (t1ha_context_t *)(CTXP + PG - sizeof(t1ha_context_t));
  if (!f) {
    static uint8_t pre[64];
    t1ha2_init(ctx, 1, 2);
    t1ha2_update(ctx, pre, fill_level);
    if (finkind) {
      MARK[0] = 1;
      sink = t1ha2_final(ctx, finkind == 2 ? (uint64_t *)(EXTP + PG - 8) : NULL);
      MARK[1] = 1;
    } else {
      MARK[0] = 1;
      t1ha2_update(ctx, p, n);
      MARK[1] = 1;
    }
    return;
  }
  if (f->kind == K_128) {
    MARK[0] = 1;
    sink = t1ha2_atonce128((uint64_t *)(EXTP + PG - 8), p, n, 77);
    MARK[1] = 1;
    return;
  }
#endif
  MARK[0] = 1;
  sink = f->fn(p, n, 77);
  MARK[1] = 1;
}

int main(int argc, char **argv) {
  if (argc < 6) return 2;
  static char buf[1 << 20];
  setvbuf(stdout, buf, _IOFBF, sizeof buf);
  map((uint8_t *)MARK, PG);
  map(ARENA, 4 * PG);
  map(CTXP, PG);
  map(EXTP, PG);
  volatile int local;
  MARK[2] = 1;
  local = 1;
  MARK[3] = 1;
  for (size_t i = 0; i < 4 * PG; ++i) ARENA[i] = (uint8_t)(i * 7 + i / 255);
#ifndef T1HA2_DISABLED
  printf("CTX %zu\n", sizeof(t1ha_context_t));
  if (argv[1][0] == 'u') fill_level = atoi(argv[1] + 1);
  else if (argv[1][0] == 'f' || argv[1][0] == 'g') {
    finkind = argv[1][0] == 'f' ? 1 : 2;
    for (fill_level = 0; fill_level < 32; ++fill_level) one(0, 0);
    printf("DONE\n");
    return 0;
  } else
#endif
  {
    f = find_fn(argv[1]);
    if (!f) { printf("NONE\n"); return 0; }
  }
  size_t lo = atoi(argv[2]), hi = atoi(argv[3]), step = atoi(argv[4]);
  bool all = !strcmp(argv[5], "all");
  for (size_t n = lo; n <= hi; n += step) {
    for (size_t k = 0; k < 8; ++k) {
      const bool some = k % 3 == n % 3;
      if (all || some) one(PG + 1024 + k, n);              /* inside a page */
      if (some) one(2 * PG - n - k, n);                    /* near its end */
      if (all && some) one(PG + k, n);                     /* near its start */
      if (all && some && n > k) one(2 * PG - n + k, n);    /* across a boundary, tail short */
    }
  }
  printf("DONE\n");
  return 0;
}
