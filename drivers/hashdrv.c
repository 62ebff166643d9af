/* Runs the real hash functions on the cases of a plan, each in many memory
 * placements, and prints every distinct observation of every case:
 *
 *   R <case id> <result hex | fault text> <extra hex | -> <placement>
 *
 * Plan lines:  <id> <fn> <message> <seed x hex> <seed y hex>
 * argv: plan file, placement set ("full" | "few"), exact ("1": reads outside
 * the message are made to fault wherever the sanitizer can see them) */
#include "common.h"

static arena_t A, B;
static msg_t M;
static char cur_id[64];
static void report_hang(void) {
  printf("R %s hang - -\n", cur_id);
  fflush(stdout);
}

typedef struct { char r[40]; char e[24]; } obs_t;
#define MAXOBS 64
static obs_t seen[MAXOBS];
static int nseen;

static void observe(const char *r, const char *e, const char *place) {
  for (int i = 0; i < nseen; ++i)
    if (!strcmp(seen[i].r, r) && !strcmp(seen[i].e, e)) return;
  if (nseen == MAXOBS) return;
  snprintf(seen[nseen].r, sizeof seen[0].r, "%s", r);
  snprintf(seen[nseen].e, sizeof seen[0].e, "%s", e);
  ++nseen;
  printf("R %s %s %s %s\n", cur_id, r, e, place);
  fflush(stdout);
}

static void fill_noise(uint8_t *p, size_t n, int pat) {
  if (pat == 0) memset(p, 0, n);
  else if (pat == 1) memset(p, 0xff, n);
  else for (size_t i = 0; i < n; ++i) p[i] = (uint8_t)noise();
}

/* the output cell sits between canaries */
static uint64_t cells[8];
#ifndef T1HA2_DISABLED
static struct { uint64_t pre[4]; t1ha_context_t ctx; uint64_t post[4]; } CX;

static void feed(t1ha_context_t *ctx, const uint8_t *p, size_t n, int cut) {
  size_t i = 0;
  switch (cut) {
  case 0: t1ha2_update(ctx, p, n); break;
  case 1: for (; i < n; ++i) t1ha2_update(ctx, p + i, 1); break;
  default:
    t1ha2_update(ctx, p, 0);
    while (i < n) {
      size_t k;
      if (cut == 2) k = 7;
      else if (cut == 3) k = (i & 1) ? 33 : 31;
      else if (cut == 4) k = 32;
      else k = (size_t)(noise() % ((noise() & 3) ? 41 : 200));
      if (k > n - i) k = n - i;
      t1ha2_update(ctx, p + i, k);
      i += k;
    }
    t1ha2_update(ctx, p + n, 0);
  }
}
#endif

static void run_one(const fn_t *f, uint8_t *p, size_t n, uint64_t x, uint64_t y, int variant, const char *place) {
  volatile uint64_t r = 0, e = 0;
  char rt[40], et[24];
  const int cell = 2 + variant % 4;
  for (int i = 0; i < 8; ++i) cells[i] = noise();
  uint64_t snap[8];
  memcpy(snap, cells, sizeof snap);
  (void)y;
  if (GUARDED(({
        switch (f->kind) {
        case K_PLAIN: r = f->fn(p, n, x); break;
#ifndef T1HA2_DISABLED
        case K_128: r = t1ha2_atonce128(&cells[cell], p, n, x); break;
        case K_S64:
        case K_S128:
          fill_noise((uint8_t *)&CX, sizeof CX, variant % 3);
          memset(CX.pre, 0x5a, sizeof CX.pre);
          memset(CX.post, 0xa5, sizeof CX.post);
          t1ha2_init(&CX.ctx, x, y);
          feed(&CX.ctx, p, n, variant % 7);
          r = t1ha2_final(&CX.ctx, f->kind == K_S128 ? &cells[cell] : NULL);
          break;
#endif
        default: abort();
        }
      }))) {
    fault_armed = 0;
    long off = (long)((uint8_t *)fault_addr - p);
    if (fault_sig == SIGSEGV || fault_sig == SIGBUS)
      snprintf(rt, sizeof rt, "fault:%d:%s", (int)fault_sig, off < 0 ? "before" : (size_t)off >= n ? "behind" : "inside");
    else
      snprintf(rt, sizeof rt, "fault:%d", (int)fault_sig);
    observe(rt, "-", place);
    return;
  }
  snprintf(rt, sizeof rt, "%016" PRIx64, (uint64_t)r);
  strcpy(et, "-");
  if (f->kind == K_128 || f->kind == K_S128) {
    e = cells[cell];
    snprintf(et, sizeof et, "%016" PRIx64, (uint64_t)e);
    cells[cell] = snap[cell];
  }
  if (memcmp(cells, snap, sizeof snap)) strcpy(rt, "clobbered-cells");
#ifndef T1HA2_DISABLED
  if (f->kind == K_S64 || f->kind == K_S128)
    for (int i = 0; i < 4; ++i)
      if (CX.pre[i] != UINT64_C(0x5a5a5a5a5a5a5a5a) || CX.post[i] != UINT64_C(0xa5a5a5a5a5a5a5a5)) strcpy(rt, "clobbered-around-context");
#endif
  observe(rt, et, place);
}

static void at(const fn_t *f, uint8_t *p, uint64_t x, uint64_t y, int variant, const char *what, long k, bool exact) {
  char place[48];
  snprintf(place, sizeof place, "%s%ld/v%d", what, k, variant);
  /* surroundings */
  uint8_t *from = p - 96 < A.lo ? A.lo : p - 96;
  uint8_t *to = p + M.n + 96 > A.hi ? A.hi : p + M.n + 96;
#if WITH_ASAN
  ASAN_UNPOISON_MEMORY_REGION(from, to - from);
#endif
  fill_noise(from, p - from, variant % 3);
  fill_noise(p + M.n, to - (p + M.n), (variant + variant / 3) % 3);
  memcpy(p, M.b, M.n);
#if WITH_ASAN
  if (exact) {
    ASAN_POISON_MEMORY_REGION(from, p - from);
    ASAN_POISON_MEMORY_REGION(p + M.n, to - (p + M.n));
  }
#endif
  (void)exact;
  run_one(f, p, M.n, x, y, variant, place);
#if WITH_ASAN
  ASAN_UNPOISON_MEMORY_REGION(from, to - from);
#endif
  if (memcmp(p, M.b, M.n)) observe("input-modified", "-", place);
}

#if WITH_ASAN
/* called for every report (halt_on_error=0) */
void __asan_on_error(void) {
  observe("asan", "-", "-");
}
#endif

int main(int argc, char **argv) {
  if (argc < 4) return 2;
  FILE *plan = fopen(argv[1], "r");
  if (!plan) return 2;
  const bool full = !strcmp(argv[2], "full");
  const bool exact = !strcmp(argv[3], "1");
  fault_setup();
  hang_report = report_hang;
  size_t pages = argc > 4 ? strtoul(argv[4], NULL, 10) : 40;
  A = arena_make(pages);
  const size_t asize = (size_t)(A.hi - A.lo);
  char *line = NULL;
  size_t cap = 0;
  static char fname[32], xs[32], ys[32];
  char *msgtext = NULL;
  size_t msgcap = 0;
  long lineno = 0;
  while (getline(&line, &cap, plan) > 0) {
    if (msgcap < cap) msgtext = realloc(msgtext, msgcap = cap);
    if (sscanf(line, "%60s %30s %s %30s %30s", cur_id, fname, msgtext, xs, ys) != 5) continue;
    if (!strcmp(fname, "self")) {
      volatile int rc = -99;
      alarm(30);
      if (GUARDED(rc = t1ha_selfcheck__all_enabled())) rc = -99;
      alarm(0);
      printf("SELF %d\n", (int)rc);
      fflush(stdout);
      continue;
    }
    const fn_t *f = find_fn(fname);
    if (!f) {
      printf("UNKNOWN %s\n", fname);
      continue;
    }
    ++lineno;
    parse_msg(&M, msgtext);
    uint64_t x = strtoull(xs, NULL, 16), y = strtoull(ys, NULL, 16);
    nseen = 0;
    alarm(30);
    int v = (int)(lineno % 5);
    if (M.n > asize) {
      printf("R %s too-long - -\n", cur_id);
      continue;
    }
    const size_t room = asize - M.n;
    if (full && M.n <= 8192) {
      for (size_t k = 0; k < 24 && k <= room; ++k, ++v) at(f, A.lo + k, x, y, v, "S", (long)k, exact);
      for (size_t k = 0; k < 24 && k <= room; ++k, ++v) at(f, A.hi - M.n - k, x, y, v, "E", (long)k, exact);
      /* the last byte at distance t from an inner page boundary */
      for (long t = -10; t <= 26; ++t, ++v) {
        uint8_t *p = A.lo + (size_t)(pages / 2) * PG + t - M.n;
        if (p >= A.lo && p + M.n <= A.hi) at(f, p, x, y, v, "C", t, exact);
      }
      for (size_t k = 0; k < 8; ++k, ++v) {
        uint8_t *p = A.lo + PG + 1024 + 64 * (noise() % 8) + k;
        if (p + M.n <= A.hi) at(f, p, x, y, v, "I", (long)k, exact);
      }
      /* first byte around an inner page boundary */
      for (long t = -8; t <= 8; ++t, ++v) {
        uint8_t *p = A.lo + PG * 2 + t;
        if (p + M.n <= A.hi) at(f, p, x, y, v, "B", t, exact);
      }
    } else {
      static const int few[] = {0, 1, 2, 3, 4, 5, 6, 7, 9, 12};
      for (unsigned i = 0; i < sizeof few / sizeof *few; ++i) {
        if (M.n > 20000 && i % 4) continue;
        if ((size_t)few[i] <= room) at(f, A.lo + few[i], x, y, v++, "S", few[i], exact);
        if ((size_t)few[i] <= room) at(f, A.hi - M.n - few[i], x, y, v++, "E", few[i], exact);
      }
    }
    if (M.n == 0 && f->kind != K_S64 && f->kind != K_S128) run_one(f, NULL, 0, x, y, v, "NULL");
    alarm(0);
  }
  printf("DONE %ld\n", lineno);
  return 0;
}
