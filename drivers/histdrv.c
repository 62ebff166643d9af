/* Performs histories of stream operations with the real code, each under
 * several placements of contexts, pieces and result cells, and prints every
 * distinct vector of results:
 *
 *   R <history id> <result[+stored],...> - v<variant>
 *
 * Plan lines: <id> <op> <op> ...
 *   i<c>:<x hex>:<y hex>  u<c>:<message>  k<c><d>  f<c>  g<c>  w<c>
 * argv: plan, number of variants */
#include "common.h"
#define SLOTS 4
static arena_t A;          /* pieces */
static arena_t C[SLOTS];   /* contexts */
static arena_t E;          /* result cell */
static t1ha_context_t *ctx[SLOTS];
static msg_t M;
static char cur_id[64];
static const char *volatile cur_op;
static void report_hang(void) {
  printf("R %s hang - -\n", cur_id);
  fflush(stdout);
}
static void fill(uint8_t *p, size_t n, int pat) {
  if (pat == 0) memset(p, 0, n);
  else if (pat == 1) memset(p, 0xff, n);
  else for (size_t i = 0; i < n; ++i) p[i] = (uint8_t)noise();
}
/* what a context's memory may hold: bytes as above, or words that look like counts, lengths, flags */
static void litter(uint8_t *p, size_t n, int pat) {
  const unsigned how = (unsigned)(noise() >> 7) % 6;
  if (how < 2) { fill(p, n, pat); return; }
  if (how == 2) {      /* zeros (or ones) but for one word */
    const size_t w = noise() >> 9 & 1 ? 8 : 4, k = (noise() >> 11) % (n / w);
    fill(p, n, noise() >> 13 & 1);
    uint64_t x = (noise() >> 17) % ((noise() >> 5 & 3) ? 33 : 300);
    memcpy(p + k * w, &x, w);
    return;
  }
  const size_t w = how == 3 ? 4 : 8;
  for (size_t i = 0; i + w <= n; i += w) {
    uint64_t x;
    switch ((noise() >> 23) % (how == 5 ? 8 : 4)) {
    case 0: case 4: case 5: x = 0; break;
    case 1: case 6: x = 1 + (noise() >> 19) % 33; break;
    case 2: x = ~(uint64_t)0 << ((noise() >> 15) % 64); break;
    default: x = noise();
    }
    memcpy(p + i, &x, w);
  }
}
#define GUARDB 64
static char out[1 << 16];
static size_t outn;
static void put(const char *s) {
  size_t n = strlen(s);
  if (outn + n + 2 < sizeof out) { memcpy(out + outn, s, n + 1); outn += n; }
}
static bool bad; /* something other than a result was observed */
static void odd(const char *s) {
  if (!bad) { bad = true; outn = 0; put(s); }
}

static uint8_t *place_piece(int v) {
  size_t n = M.n;
  uint8_t *p;
  const size_t room = (size_t)(A.hi - A.lo) - n;
  size_t k = noise() % 17;
  switch (v % 3) {
  case 0: p = A.hi - n - (k < room ? k : 0) * (noise() & 1); break;
  case 1: p = A.lo + (k < room ? k : 0); break;
  default: p = A.lo + PG + (k < room ? k : 0) - (n + 8 < PG ? n + 8 : 0); if (p + n > A.hi) p = A.hi - n; break;
  }
  if (p < A.lo) p = A.lo;
  return p;
}
static uint8_t snap[PG], snap2[PG];

static void op_run(const char *op, int v) {
  char k = op[0];
  int c = op[1] - '1';
  t1ha_context_t *x = ctx[c];
  /* neighbourhood of the context must not change */
  uint8_t *lo = C[c].lo, *hi = C[c].hi;
  size_t pre = (uint8_t *)x - lo, post = hi - (uint8_t *)(x + 1);
  memcpy(snap, lo, pre);
  memcpy(snap2, (uint8_t *)(x + 1), post);
  if (k == 'i') {
    char *e;
    uint64_t sx = strtoull(op + 3, &e, 16), sy = strtoull(e + 1, NULL, 16);
    t1ha2_init(x, sx, sy);
  } else if (k == 'u') {
    parse_msg(&M, op + 3);
    uint8_t *p = place_piece(v + (int)(noise() % 3));
    uint8_t *from = p - 40 < A.lo ? A.lo : p - 40, *to = p + M.n + 40 > A.hi ? A.hi : p + M.n + 40;
    fill(from, p - from, (int)(noise() % 3));
    fill(p + M.n, to - p - M.n, (int)(noise() % 3));
    memcpy(p, M.b, M.n);
    t1ha2_update(x, (M.n == 0 && v == 1) ? NULL : p, M.n);
    if (memcmp(p, M.b, M.n)) odd("input-modified");
    fill(p, M.n, v); /* the piece is the caller's again */
  } else if (k == 'k') {
    int d = op[2] - '1';
    if (v & 1) *ctx[d] = *x;
    else memcpy(ctx[d], x, sizeof *x);
    return;
  } else if (k == 'w') {
    litter((uint8_t *)x, sizeof *x, v + (int)(noise() & 1));
  } else if (k == 'f' || k == 'g') {
    char t[48];
    uint64_t *cell = (uint64_t *)((v & 1) ? E.hi - 8 : E.lo) + ((v & 1) ? 0 : noise() % 4);
    uint8_t cs[PG];
    fill(E.lo, PG, v);
    uint64_t r;
    if (k == 'f') {
      memcpy(cs, E.lo, PG);
      r = t1ha2_final(x, NULL);
      snprintf(t, sizeof t, "%016" PRIx64, r);
    } else {
      memcpy(cs, E.lo, PG);
      r = t1ha2_final(x, cell);
      snprintf(t, sizeof t, "%016" PRIx64 "+%016" PRIx64, r, *cell);
      memcpy(cs + ((uint8_t *)cell - E.lo), cell, 8);
    }
    if (memcmp(cs, E.lo, PG)) odd("clobbered-around-result");
    if (!bad) {
      if (outn) put(",");
      put(t);
    }
    if (noise() >> 21 & 1) litter((uint8_t *)x, sizeof *x, v + 1); /* its life is over */
  }
  if (memcmp(snap, lo, pre) || memcmp(snap2, (uint8_t *)(x + 1), post)) odd("clobbered-around-context");
}

int main(int argc, char **argv) {
  if (argc < 3) return 2;
  FILE *plan = fopen(argv[1], "r");
  if (!plan) return 2;
  const int variants = atoi(argv[2]);
  fault_setup();
  hang_report = report_hang;
  A = arena_make(24);
  for (int i = 0; i < SLOTS; ++i) C[i] = arena_make(1);
  E = arena_make(1);
  char *line = NULL, *work = NULL;
  size_t cap = 0;
  long n = 0, ops = 0;
  static char prev[4][1 << 16];
  while (getline(&line, &cap, plan) > 0) {
    work = realloc(work, cap);
    line[strcspn(line, "\n")] = 0;
    ++n;
    int nprev = 0;
    for (volatile int v = 0; v < variants; ++v) {
      outn = 0;
      out[0] = 0;
      bad = false;
      for (int i = 0; i < SLOTS; ++i) {
        const size_t al = __alignof__(t1ha_context_t);
        size_t room = PG - sizeof(t1ha_context_t);
        size_t off = (v % 3 == 0) ? room : (v % 3 == 1) ? 0 : (noise() % (room / al)) * al;
        ctx[i] = (t1ha_context_t *)(C[i].lo + off / al * al);
        fill(C[i].lo, PG, v);
        litter((uint8_t *)ctx[i], sizeof *ctx[i], v);
      }
      strcpy(work, line);
      char *save, *tok = strtok_r(work, " ", &save);
      snprintf(cur_id, sizeof cur_id, "%s", tok);
      alarm(30);
      while ((tok = strtok_r(NULL, " ", &save))) {
        cur_op = tok;
        ++ops;
        if (GUARDED(op_run(tok, v))) {
          char t[64];
          snprintf(t, sizeof t, "fault:%d:%c", (int)fault_sig, cur_op[0]);
          odd(t);
          break;
        }
      }
      alarm(0);
      int i;
      for (i = 0; i < nprev; ++i)
        if (!strcmp(prev[i], out)) break;
      if (i == nprev) {
        if (nprev < 4) strcpy(prev[nprev++], out);
        printf("R %s %s - v%d\n", cur_id, out[0] ? out : "none", v);
        fflush(stdout);
      }
    }
  }
  printf("DONE %ld %ld\n", n, ops);
  return 0;
}
