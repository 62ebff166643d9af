/* Hashes long messages: a megabyte of content mapped again and again.
 * longdrv <plan> [max-map]; plan lines:
 *   <id> <fn> <salt> <offset> <length> <x> <y> <cut>
 * cut: "-" at once, or for streams a list of size*count, the last size
 * repeated until all is fed. Output: R <id> <result> <extra|-> */
#include "common.h"
#ifndef MFD_CLOEXEC
#define MFD_CLOEXEC 1
#endif
#include <sys/syscall.h>

#define PERIOD (1u << 20)
#define UNIT (16u << 20)

static uint8_t *base;
static uint64_t mapped;

static void content(unsigned salt, uint64_t need) {
  static unsigned have_salt = ~0u;
  if (have_salt == salt && need <= mapped) return;
  if (base) munmap(base, mapped);
  int fd = (int)syscall(SYS_memfd_create, "content", 0);
  if (fd < 0 || ftruncate(fd, UNIT)) { perror("memfd"); exit(3); }
  uint8_t *u = mmap(NULL, UNIT, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (u == MAP_FAILED) { perror("mmap"); exit(3); }
  for (unsigned i = 0; i < PERIOD; ++i) u[i] = gen_byte('r', salt, i);
  for (unsigned k = 1; k < UNIT / PERIOD; ++k) memcpy(u + (size_t)k * PERIOD, u, PERIOD);
  munmap(u, UNIT);
  mapped = (need + UNIT) / UNIT * UNIT;
  if ((uint64_t)(size_t)mapped != mapped) { printf("NOROOM\n"); exit(4); }
  base = mmap(NULL, (size_t)mapped, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (base == MAP_FAILED) { printf("NOROOM\n"); exit(4); }
  for (uint64_t o = 0; o < mapped; o += UNIT)
    if (mmap(base + (size_t)o, UNIT, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { printf("NOROOM\n"); exit(4); }
  close(fd);
  have_salt = salt;
}

static uint64_t biggest(const char *cut, uint64_t n) {
  if (*cut == '-') return n;
  uint64_t m = 0;
  char *p = (char *)cut;
  for (;;) {
    uint64_t v = strtoull(p, &p, 10);
    if (v > m) m = v;
    if (*p == '*') strtoull(p + 1, &p, 10);
    if (*p != ',') break;
    ++p;
  }
  return m < n ? m : n;
}

#ifndef T1HA2_DISABLED
static uint64_t stream(const char *cut, unsigned o, uint64_t n, uint64_t x, uint64_t y, uint64_t *extra) {
  t1ha_context_t ctx;
  t1ha2_init(&ctx, x, y);
  uint64_t at = 0;
  char *p = (char *)cut;
  uint64_t size = 0, left = 0;
  if (*cut == '-') size = n, left = ~0ull;
  while (at < n) {
    if (!left) {
      size = strtoull(p, &p, 10);
      if (*p == '*') left = strtoull(p + 1, &p, 10); else left = ~0ull;
      if (*p == ',') ++p;
    }
    uint64_t k = size < n - at ? size : n - at;
    t1ha2_update(&ctx, base + (size_t)((o + at) % PERIOD), (size_t)k);
    at += k;
    --left;
    if (!size && left > 100) left = 0;
  }
  return t1ha2_final(&ctx, extra);
}
#endif

static char line[4096], id[128], fn[16], cut[2048];
static void report_hang(void) {
  printf("R %s hang -\n", id);
  fflush(stdout);
}
int main(int argc, char **argv) {
  (void)argc;
  FILE *f = fopen(argv[1], "r");
  if (!f) return 3;
  fault_setup();
  hang_report = report_hang;
  while (fgets(line, sizeof line, f)) {
    unsigned salt, o;
    uint64_t n, x, y, r = 0, e = 0;
    if (sscanf(line, "%127s %15s %u %u %" SCNu64 " %" SCNx64 " %" SCNx64 " %2047s", id, fn, &salt, &o, &n, &x, &y, cut) != 8) return 3;
    const fn_t *h = find_fn(fn);
    if (!h) { printf("U %s\n", id); continue; }
    content(salt, biggest(cut, n) + PERIOD);
    bool has_extra = h->kind == K_128 || h->kind == K_S128;
    alarm(60 + (unsigned)(n >> 25));
    int bad = GUARDED({
      switch (h->kind) {
      case K_PLAIN: r = h->fn(base + o, (size_t)n, x); break;
#ifndef T1HA2_DISABLED
      case K_128: r = t1ha2_atonce128(&e, base + o, (size_t)n, x); break;
      case K_S64: r = stream(cut, o, n, x, y, NULL); break;
      case K_S128: r = stream(cut, o, n, x, y, &e); break;
#else
      default: break;
#endif
      }
    });
    alarm(0);
    if (bad) printf("R %s fault:%d -\n", id, (int)fault_sig);
    else if (has_extra) printf("R %s %016" PRIx64 " %016" PRIx64 "\n", id, r, e);
    else printf("R %s %016" PRIx64 " -\n", id, r);
    fflush(stdout);
  }
  printf("DONE\n");
  return 0;
}
