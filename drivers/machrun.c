/* Runs the library, compiled for a foreign processor, on the cases of a plan.
 * argv: image, plan: long messages, as longdrv.c does (streams only); or
 * argv: image, plan, placements ("full" | "few"), exact ("1": reading anything
 * but the message traps).  Output as the native driver's. */
#define main unused_main
#include "machine.h"
#undef main
machine_t M;

static uint8_t gen_byte(char g, unsigned s, size_t i) {
  switch (g) {
  case 'z': return 0;
  case 'f': return 255;
  case 'c': return (uint8_t)(i + s);
  case 'h': return (i % 64) == (s % 64) ? 128 : 0;
  case 'r': i &= 1048575; /* fall through */
  case 'p': {
    unsigned x = (unsigned)((i + (size_t)s * 131) % 32749);
    unsigned y = (unsigned)((i / 32749) % 1021);
    return (uint8_t)((x * x) % 65521 + x * 167 + y * 7919 + (x / 256) * 31);
  }
  }
  abort();
}
static int hexval(int c) { return c >= '0' && c <= '9' ? c - '0' : c - 'a' + 10; }
static uint8_t *mb;
static size_t mn, mcap;
static void parse_msg(const char *t) {
  char g = t[0], *p;
  unsigned s = (unsigned)strtoul(t + 2, &p, 10);
  ++p;
  size_t n = g == 'x' ? (*p == '-' ? 0 : strlen(p) / 2) : strtoull(p, NULL, 10);
  if (n + 1 > mcap) mb = realloc(mb, mcap = n * 2 + 64);
  mn = n;
  for (size_t i = 0; i < n; ++i)
    mb[i] = g == 'x' ? (uint8_t)(hexval(p[2 * i]) << 4 | hexval(p[2 * i + 1])) : gen_byte(g, s, i);
}
static uint64_t ns = 88172645463325252ULL;
static uint64_t noise(void) { ns ^= ns << 13; ns ^= ns >> 7; ns ^= ns << 17; return ns; }

static uint32_t cpu;
static uint64_t entry, P;
static bool exact;
static char id[64];
static uint64_t total_steps, calls;
static char seen[64][2][48];
static int nseen;
static void observe(const char *r, const char *e, const char *place) {
  for (int i = 0; i < nseen; ++i)
    if (!strcmp(seen[i][0], r) && !strcmp(seen[i][1], e)) return;
  if (nseen == 64) return;
  snprintf(seen[nseen][0], 48, "%s", r);
  snprintf(seen[nseen][1], 48, "%s", e);
  ++nseen;
  printf("R %s %s %s %s\n", id, r, e, place);
}

static bool call(unsigned fn, uint64_t p, uint64_t n, uint64_t x, uint64_t y, unsigned cut, const char *place, bool out) {
  store_raw(P + 0, 4, fn); store_raw(P + 4, 4, cut); store_raw(P + 8, 8, p); store_raw(P + 16, 8, n);
  store_raw(P + 24, 8, x); store_raw(P + 32, 8, y); store_raw(P + 40, 8, 0); store_raw(P + 48, 8, 0);
  store_raw(P + 56, 8, 0); store_raw(P + 64, 8, noise());
  M.limit = 400000 + n * 400;
  ++calls;
  int t = setjmp(M.trap);
  if (t == 2) { printf("R %s unsupported:%s - -\n", id, M.why); printf("DONE 0\n"); fflush(stdout); exit(0); }
  if (t == 1) {
    char b[80];
    snprintf(b, sizeof b, "trap:%s", M.why);
    if (out) observe(b, "-", place);
    return false;
  }
  switch (cpu) {
  case 0: run_mips(entry); break;
  case 1: run_sparc(entry); break;
  case 2: run_arm(entry); break;
  default: run_a64(entry);
  }
  total_steps += M.steps;
  if (!out) return true;
  char r[24], e[24] = "-";
  snprintf(r, sizeof r, "%016" PRIx64, load_raw(P + 40, 8));
  if (fn == 2 || fn == 4) snprintf(e, sizeof e, "%016" PRIx64, load_raw(P + 48, 8));
  uint64_t rc = load_raw(P + 56, 8);
  if (rc) strcpy(e, "-");
  if (rc) snprintf(r, sizeof r, rc == 1 ? "clobbered-cells" : rc == 2 ? "clobbered-around" : "absent");
  observe(r, e, place);
  return true;
}

static void at(unsigned fn, uint64_t p, uint64_t x, uint64_t y, unsigned v, const char *what, long k) {
  char place[48];
  snprintf(place, sizeof place, "%s%ld/v%u", what, k, v);
  /* surroundings */
  uint64_t from = p - 48, to = p + mn + 48;
  if (from < ARENA) from = ARENA;
  for (uint64_t i = from; i < p; ++i) M.mem[i] = v % 3 == 0 ? 0 : v % 3 == 1 ? 255 : (uint8_t)noise();
  for (uint64_t i = p + mn; i < to && i < MEMSIZE; ++i) M.mem[i] = v % 3 == 1 ? 0 : v % 3 == 0 ? 255 : (uint8_t)noise();
  memcpy(M.mem + p, mb, mn);
  if (!mn) M.lo = M.hi = p;
  else if (exact) M.lo = p, M.hi = p + mn;
  else M.lo = p & ~(uint64_t)(MPG - 1), M.hi = (p + mn + MPG - 1) & ~(uint64_t)(MPG - 1);
  call(fn, p, mn, x, y, v % 7, place, true);
}

static const struct { const char *name; unsigned fn; } names[] = {
    {"2a64", 1}, {"2a128", 2}, {"2s64", 3}, {"2s128", 4}, {"1le", 5}, {"1be", 6},
    {"0le", 7}, {"0be", 8}, {"t1ha0", 9}, {"resolve", 10}, {"self", 20}, {NULL, 0}};

/* a stream of up to 2^64 bytes with a period of 1 MiB, in pieces of one size up to that */
static int longs(FILE *plan) {
  static char line[4096], name[16], cut[256], out[96];
  const uint64_t base = ARENA + MPG;
  while (fgets(line, sizeof line, plan)) {
    unsigned salt, o;
    uint64_t n, x, y;
    if (sscanf(line, "%60s %15s %u %u %" SCNu64 " %" SCNx64 " %" SCNx64 " %255s", id, name, &salt, &o, &n, &x, &y, cut) != 8) return 2;
    unsigned fn = !strcmp(name, "2s64") ? 13 : !strcmp(name, "2s128") ? 14 : 0;
    uint64_t piece = strtoull(cut, NULL, 10);
    if (!fn || !piece || piece > 1048576) { printf("U %s\n", id); continue; }
    for (unsigned i = 0; i < 2097152; ++i) M.mem[base + i] = gen_byte('r', salt, i);
    M.lo = base; M.hi = base + 2097152;
    store_raw(P + 0, 4, fn); store_raw(P + 4, 4, piece); store_raw(P + 8, 8, base); store_raw(P + 16, 8, n);
    store_raw(P + 24, 8, x); store_raw(P + 32, 8, y); store_raw(P + 64, 8, o);
    M.limit = 1000000 + n * 40;
    int t = setjmp(M.trap);
    if (t == 2) { printf("U %s\n", id); continue; }
    if (t == 1) { printf("R %s trap:%s -\n", id, M.why); continue; }
    switch (cpu) {
    case 0: run_mips(entry); break;
    case 1: run_sparc(entry); break;
    case 2: run_arm(entry); break;
    default: run_a64(entry);
    }
    if (fn == 14) snprintf(out, sizeof out, "%016" PRIx64, load_raw(P + 48, 8)); else strcpy(out, "-");
    if (load_raw(P + 56, 8) == 9) printf("U %s\n", id);
    else printf("R %s %016" PRIx64 " %s\n", id, load_raw(P + 40, 8), out);
    fflush(stdout);
  }
  printf("DONE\n");
  return 0;
}

int main(int argc, char **argv) {
  if (argc < 3) return 2;
  FILE *f = fopen(argv[1], "rb");
  uint32_t h[6];
  uint64_t q[2];
  if (!f || fread(h, 4, 6, f) != 6 || h[0] != 0x31474d49) return 2;
  cpu = h[1];
  M.be = h[2]; M.wide = h[3]; M.strict = h[4];
  M.mem = calloc(1, MEMSIZE + 64);
  for (uint32_t i = 0; i < h[5]; ++i) {
    if (fread(q, 8, 2, f) != 2 || q[0] < 4096 || q[0] + q[1] > STACKLOW) return 2;
    if (fread(M.mem + q[0], 1, q[1], f) != q[1]) return 2;
    if (q[0] + q[1] > M.image_hi) M.image_hi = q[0] + q[1];
  }
  if (fread(q, 8, 2, f) != 2) return 2;
  entry = q[0]; P = q[1];
  uint64_t init[64], ninit = 0; /* constructors */
  while (ninit < 64 && fread(&init[ninit], 8, 1, f) == 1) ++ninit;
  fclose(f);
  uint64_t hi = M.image_hi;
  M.image_hi = (hi + 65536 + 4095) & ~UINT64_C(4095);
  uint8_t *pristine = malloc(M.image_hi);
  memcpy(pristine, M.mem, M.image_hi);

  FILE *plan = fopen(argv[2], "r");
  if (!plan) return 2;
  if (argc < 5) return longs(plan);
  bool full = !strcmp(argv[3], "full");
  exact = !strcmp(argv[4], "1");
  setvbuf(stdout, NULL, _IOLBF, 1 << 16);
  static char line[1 << 20], fname[32], text[1 << 20], xs[32], ys[32];
  long no = 0;
  while (fgets(line, sizeof line, plan)) {
    if (sscanf(line, "%60s %30s %1000000s %30s %30s", id, fname, text, xs, ys) != 5) continue;
    unsigned fn = 0;
    for (int i = 0; names[i].name; ++i) if (!strcmp(names[i].name, fname)) fn = names[i].fn;
    if (!fn) continue;
    parse_msg(text);
    uint64_t x = strtoull(xs, NULL, 16), y = strtoull(ys, NULL, 16);
    unsigned v = (unsigned)(++no % 5);
    nseen = 0;
    /* every case starts with the program as loaded; every other one (by its
     * name) without its constructors having run */
    unsigned odd = 0;
    for (const char *q = id; *q; ++q) odd += (unsigned char)*q;
    memcpy(M.mem, pristine, M.image_hi);
    if (odd & 1)
      for (uint64_t i = 0; i < ninit; ++i) {
        uint64_t keep = entry;
        entry = init[i];
        M.lo = M.hi = ARENA;
        call(0, 0, 0, 0, 0, 0, "-", false);
        entry = keep;
      }
    if (fn == 20) {
      M.lo = M.hi = ARENA;
      M.limit = 0;
      call(20, 0, 100000, 0, 0, 0, "-", true);
      continue;
    }
    const uint64_t lo = ARENA + MPG, mid = ARENA + (4u << 20);
    if (mn > (3u << 20)) { printf("R %s too-long - -\n", id); continue; }
    if (full && mn <= 2048) {
      for (long k = 0; k < 17; ++k, ++v) at(fn, lo + k, x, y, v, "S", k);
      for (long k = 0; k < 17; ++k, ++v) at(fn, mid - mn - k, x, y, v, "E", k);
      for (long k = -9; k <= 25; ++k, ++v) at(fn, mid + k - mn, x, y, v, "C", k);
      for (long k = 0; k < 8; ++k, ++v) at(fn, mid + 1024 + 64 * (noise() % 8) + k, x, y, v, "I", k);
      for (long k = -8; k < 0; ++k, ++v) at(fn, mid + k, x, y, v, "B", k);
    } else {
      for (long k = 0; k < 8; ++k, ++v) at(fn, lo + k, x, y, v, "S", k);
      for (long k = 0; k < (mn > 20000 ? 2 : 8); ++k, ++v) at(fn, mid - mn - k, x, y, v, "E", k);
    }
    if (mn == 0 && fn != 3 && fn != 4) { M.lo = M.hi = ARENA; call(fn, 0, 0, x, y, 0, "NULL", true); }
  }
  printf("STEPS %" PRIu64 " CALLS %" PRIu64 "\n", total_steps, calls);
  printf("DONE %ld\n", no);
  return 0;
}
