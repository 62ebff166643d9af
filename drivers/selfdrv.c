/* Runs self-checks while chosen hash functions return chosen wrong values on
 * chosen reference inputs. The entries of the hash functions are overwritten
 * with jumps to stand-ins, which call the real code and then alter its result.
 *   selfdrv <references> <plan>
 * references: lines "<hex|-> <seed>"; line j is reference input j.
 * plan lines:
 *   B <id> <check>                        no fault; what is probed
 *   X <id> <check> <fn> <mask,mask,...>   every reference input x every mask, one at a time
 *   M <id> <check> <fn:j:occ:mask> ...    faults together; occ 0: always, n: the n-th time only
 * output:
 *   B <id> <rc> <fn>=<j,j,...> ...
 *   X <id> <j> <rc> <delivered 0|1> <how many masks>
 *   M <id> <rc> <delivered>                                                  */
#include "common.h"
#include "traps.h"

#define NREF 200
static struct { uint8_t b[512]; size_t n; uint64_t s; } refs[NREF];
static int nrefs;

enum { F_2a64, F_2a128, F_1le, F_1be, F_0le, F_0be, F_aes, F_avx, F_avx2, F_init, F_update, F_final, F_2s64, F_2s128, NF };
static const char *const fname[NF] = {"2a64", "2a128", "1le", "1be", "0le", "0be", "aes", "avx", "avx2",
                                      "init", "update", "final", "2s64", "2s128"};
static uint8_t *entry[NF];
static uint8_t saved[NF][5], jump[NF][5];
static bool on;

static void put(int f, const uint8_t *b) {
  for (int i = 0; i < 5; ++i) ((volatile uint8_t *)entry[f])[i] = b[i];
  __builtin___clear_cache((char *)entry[f], (char *)entry[f] + 5);
}
static void hook(int f, void *fn, void *stub) {
  writable(fn);
  entry[f] = fn;
  memcpy(saved[f], fn, 5);
  int32_t rel = (int32_t)((uint8_t *)stub - ((uint8_t *)fn + 5));
  jump[f][0] = 0xE9;
  memcpy(jump[f] + 1, &rel, 4);
}
static void hooks(bool v) {
  on = v;
  for (int f = 0; f < NF; ++f) if (entry[f]) put(f, v ? jump[f] : saved[f]);
}

/* ---- faults ---- */
typedef struct { int f, j, occ; uint64_t mask; } fault_t;
static fault_t faults[4096];
static int nfaults, delivered;
static int times[NF][NREF + 1];
static uint64_t alter(int f, const void *d, size_t n, uint64_t s, uint64_t r) {
  for (int j = 0; j < nrefs; ++j)
    if (refs[j].n == n && refs[j].s == s && (n == 0 || memcmp(refs[j].b, d, n) == 0)) {
      int t = ++times[f][j + 1];
      for (int k = 0; k < nfaults; ++k)
        if (faults[k].f == f && faults[k].j == j + 1 && (faults[k].occ == 0 || faults[k].occ == t)) {
          if (faults[k].mask) delivered = 1;
          r ^= faults[k].mask;
        }
      return r;
    }
  return r;
}

#define PLAIN(id, real)                                                        \
  static uint64_t stub_##id(const void *d, size_t n, uint64_t s) {             \
    put(F_##id, saved[F_##id]);                                                \
    uint64_t r = real(d, n, s);                                                \
    put(F_##id, jump[F_##id]);                                                 \
    return alter(F_##id, d, n, s, r);                                          \
  }
#ifndef T1HA2_DISABLED
PLAIN(2a64, t1ha2_atonce)
static uint64_t stub_2a128(uint64_t *e, const void *d, size_t n, uint64_t s) {
  put(F_2a128, saved[F_2a128]);
  uint64_t r = t1ha2_atonce128(e, d, n, s);
  put(F_2a128, jump[F_2a128]);
  return alter(F_2a128, d, n, s, r);
}
static struct { t1ha_context_t *ctx; uint64_t x, y; uint8_t b[4096]; size_t n; } cur;
static void stub_init(t1ha_context_t *c, uint64_t x, uint64_t y) {
  cur.ctx = c; cur.x = x; cur.y = y; cur.n = 0;
  put(F_init, saved[F_init]);
  t1ha2_init(c, x, y);
  put(F_init, jump[F_init]);
}
/* final may itself call update, that is none of the message */
static bool finishing;
static void stub_update(t1ha_context_t *c, const void *d, size_t n) {
  if (!finishing && c == cur.ctx && cur.n + n <= sizeof cur.b) { if (n) memcpy(cur.b + cur.n, d, n); cur.n += n; }
  put(F_update, saved[F_update]);
  t1ha2_update(c, d, n);
  put(F_update, jump[F_update]);
}
static uint64_t stub_final(t1ha_context_t *c, uint64_t *e) {
  put(F_final, saved[F_final]);
  finishing = true;
  uint64_t r = t1ha2_final(c, e);
  finishing = false;
  put(F_final, jump[F_final]);
  if (c == cur.ctx && cur.x == cur.y) r = alter(e ? F_2s128 : F_2s64, cur.b, cur.n, cur.x, r);
  return r;
}
#endif
#ifndef T1HA1_DISABLED
PLAIN(1le, t1ha1_le)
PLAIN(1be, t1ha1_be)
#endif
#ifndef T1HA0_DISABLED
PLAIN(0le, t1ha0_32le)
PLAIN(0be, t1ha0_32be)
#if T1HA0_AESNI_AVAILABLE
PLAIN(aes, t1ha0_ia32aes_noavx)
PLAIN(avx, t1ha0_ia32aes_avx)
PLAIN(avx2, t1ha0_ia32aes_avx2)
#endif
#endif

static const struct { const char *name; int (*fn)(void); } checks[] = {
    {"t1ha_selfcheck__all_enabled", t1ha_selfcheck__all_enabled},
#define C(x) {#x, x}
#ifndef T1HA2_DISABLED
    C(t1ha_selfcheck__t1ha2_atonce), C(t1ha_selfcheck__t1ha2_atonce128), C(t1ha_selfcheck__t1ha2_stream), C(t1ha_selfcheck__t1ha2),
#endif
#ifndef T1HA1_DISABLED
    C(t1ha_selfcheck__t1ha1_le), C(t1ha_selfcheck__t1ha1_be), C(t1ha_selfcheck__t1ha1),
#endif
#ifndef T1HA0_DISABLED
    C(t1ha_selfcheck__t1ha0_32le), C(t1ha_selfcheck__t1ha0_32be), C(t1ha_selfcheck__t1ha0),
#if T1HA0_AESNI_AVAILABLE
    C(t1ha_selfcheck__t1ha0_ia32aes_noavx), C(t1ha_selfcheck__t1ha0_ia32aes_avx), C(t1ha_selfcheck__t1ha0_ia32aes_avx2),
#endif
#endif
    {NULL, NULL}};

static volatile int rcv;
static int perform(int (*fn)(void)) {
  memset(times, 0, sizeof times);
  delivered = 0;
  hooks(true);
  int f = GUARDED(rcv = fn());
  hooks(false);
  return f ? -1000 - (int)fault_sig : rcv;
}

int main(int argc, char **argv) {
  (void)argc;
  fault_setup();
#ifndef T1HA2_DISABLED
  hook(F_2a64, (void *)t1ha2_atonce, (void *)stub_2a64);
  hook(F_2a128, (void *)t1ha2_atonce128, (void *)stub_2a128);
  hook(F_init, (void *)t1ha2_init, (void *)stub_init);
  hook(F_update, (void *)t1ha2_update, (void *)stub_update);
  hook(F_final, (void *)t1ha2_final, (void *)stub_final);
#endif
#ifndef T1HA1_DISABLED
  hook(F_1le, (void *)t1ha1_le, (void *)stub_1le);
  hook(F_1be, (void *)t1ha1_be, (void *)stub_1be);
#endif
#ifndef T1HA0_DISABLED
  hook(F_0le, (void *)t1ha0_32le, (void *)stub_0le);
  hook(F_0be, (void *)t1ha0_32be, (void *)stub_0be);
#if T1HA0_AESNI_AVAILABLE
  hook(F_aes, (void *)t1ha0_ia32aes_noavx, (void *)stub_aes);
  hook(F_avx, (void *)t1ha0_ia32aes_avx, (void *)stub_avx);
  hook(F_avx2, (void *)t1ha0_ia32aes_avx2, (void *)stub_avx2);
#endif
#endif
  static char line[1 << 20];
  FILE *f = fopen(argv[1], "r");
  while (fgets(line, sizeof line, f) && nrefs < NREF) {
    char hex[1100]; uint64_t s;
    if (sscanf(line, "%1099s %" SCNx64, hex, &s) != 2) continue;
    size_t n = hex[0] == '-' ? 0 : strlen(hex) / 2;
    for (size_t i = 0; i < n; ++i) refs[nrefs].b[i] = (uint8_t)(hexval(hex[2 * i]) << 4 | hexval(hex[2 * i + 1]));
    refs[nrefs].n = n;
    refs[nrefs++].s = s;
  }
  fclose(f);
  f = fopen(argv[2], "r");
  while (fgets(line, sizeof line, f)) {
    char *save, *k = strtok_r(line, " \n", &save), *id = strtok_r(NULL, " \n", &save), *ck = strtok_r(NULL, " \n", &save);
    if (!ck) continue;
    int (*fn)(void) = NULL;
    for (int i = 0; checks[i].name; ++i) if (!strcmp(checks[i].name, ck)) fn = checks[i].fn;
    if (!fn) { printf("%s %s absent\n", k, id); continue; }
    nfaults = 0;
    if (*k == 'B') {
      int rc = perform(fn);
      printf("B %s %d", id, rc);
      for (int g = 0; g < NF; ++g) {
        int c = 0;
        for (int j = 1; j <= nrefs; ++j)
          if (times[g][j]) {
            if (!c++) printf(" %s=%d", fname[g], j);
            else printf(",%d", j);
          }
      }
      puts("");
    } else if (*k == 'X') {
      char *fs = strtok_r(NULL, " \n", &save), *ms = strtok_r(NULL, " \n", &save);
      int g = -1;
      for (int i = 0; i < NF; ++i) if (!strcmp(fname[i], fs)) g = i;
      uint64_t masks[256]; int nm = 0;
      for (char *p = strtok(ms, ","); p && nm < 256; p = strtok(NULL, ",")) masks[nm++] = strtoull(p, NULL, 16);
      for (int j = 1; j <= nrefs; ++j) {
        int rcs[8], dl[8], ct[8], n = 0;
        for (int m = 0; m < nm; ++m) {
          nfaults = 1; faults[0].f = g; faults[0].j = j; faults[0].occ = 0; faults[0].mask = masks[m];
          int rc = perform(fn), i = 0;
          for (; i < n; ++i) if (rcs[i] == rc && dl[i] == delivered) break;
          if (i == n) { if (n == 8) continue; rcs[n] = rc; dl[n] = delivered; ct[n++] = 0; }
          ct[i]++;
        }
        for (int i = 0; i < n; ++i) printf("X %s %d %d %d %d\n", id, j, rcs[i], dl[i], ct[i]);
      }
    } else {
      for (char *p; (p = strtok_r(NULL, " \n", &save)) != NULL && nfaults < 4096;) {
        char nm[16]; int j, occ; uint64_t m;
        if (sscanf(p, "%15[^:]:%d:%d:%" SCNx64, nm, &j, &occ, &m) != 4) continue;
        for (int i = 0; i < NF; ++i) if (!strcmp(fname[i], nm)) { fault_t q = {i, j, occ, m}; faults[nfaults++] = q; }
      }
      int rc = perform(fn);
      printf("M %s %d %d\n", id, rc, delivered);
    }
    fflush(stdout);
  }
  puts("END");
  return 0;
}
