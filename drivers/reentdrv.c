/* Hash calls that are interrupted by hash calls, run beside hash calls and
 * follow hash calls.  Prints every distinct observation of every case:
 *
 *   R <case id> <result hex | fault text> <extra hex | -> <circumstance>
 *
 * argv: plan file, mode
 *   step      every call is interrupted before each of its instructions, and
 *             the handler hashes other cases (and is itself interrupted)
 *   first     a fresh process per instruction: its first call is interrupted
 *             once, just there
 *   threads   many threads call at once
 *   history   calls after many calls, and calls with the same address, length
 *             and seed but other bytes
 * Messages lie in read-only pages, except in history mode. */
#include "common.h"
#include <pthread.h>
#include <sys/wait.h>
#include <ucontext.h>

#ifdef __x86_64__
#define FLAGS_OF(u) (((ucontext_t *)(u))->uc_mcontext.gregs[REG_EFL])
#else
#define FLAGS_OF(u) (((ucontext_t *)(u))->uc_mcontext.gregs[REG_EFL])
#endif
#define TF 0x100

typedef struct { uint64_t r, e; bool has_e; char text[24]; } res_t;
#define MAXSEEN 12
typedef struct {
  char id[32];
  const fn_t *f;
  uint8_t *p;
  size_t n;
  uint64_t x, y;
  int cut;
} case_t;
static case_t *C;
static unsigned nc;
typedef struct { res_t s[MAXSEEN]; int n; } seen_t;

static void observe(seen_t *all, unsigned k, const res_t *r, const char *where) {
  seen_t *s = &all[k];
  for (int i = 0; i < s->n; ++i)
    if (s->s[i].r == r->r && s->s[i].e == r->e && !strcmp(s->s[i].text, r->text)) return;
  if (s->n == MAXSEEN) return;
  s->s[s->n++] = *r;
  char line[160], ex[24] = "-";
  if (r->has_e) snprintf(ex, sizeof ex, "%016" PRIx64, r->e);
  int len;
  if (r->text[0]) len = snprintf(line, sizeof line, "R %s %s - %s\n", C[k].id, r->text, where);
  else len = snprintf(line, sizeof line, "R %s %016" PRIx64 " %s %s\n", C[k].id, r->r, ex, where);
  if (write(1, line, (size_t)len) != len) _exit(9);
}

static inline __attribute__((always_inline)) void hash(const case_t *c, res_t *out) {
  out->e = 0;
  out->has_e = false;
  out->text[0] = 0;
  switch (c->f->kind) {
  case K_PLAIN: out->r = c->f->fn(c->p, c->n, c->x); break;
#ifndef T1HA2_DISABLED
  case K_128: out->has_e = true; out->e = 77; out->r = t1ha2_atonce128(&out->e, c->p, c->n, c->x); break;
  default: {
    t1ha_context_t ctx;
    t1ha2_init(&ctx, c->x, c->y);
    size_t i = 0;
    while (i < c->n) {
      size_t k = c->cut == 0 ? c->n : c->cut == 1 ? 13 : c->cut == 2 ? 33 : 70;
      if (k > c->n - i) k = c->n - i;
      t1ha2_update(&ctx, c->p + i, k);
      i += k;
    }
    if (c->f->kind == K_S128) { out->has_e = true; out->e = 77; out->r = t1ha2_final(&ctx, &out->e); }
    else out->r = t1ha2_final(&ctx, NULL);
  }
#endif
  }
}
static __attribute__((noinline)) void hash_call(const case_t *c, res_t *out) { hash(c, out); }

static inline void tf_on(void) {
#ifdef __x86_64__
  __asm volatile("lea -128(%%rsp),%%rsp\n\tpushfq\n\torq $0x100,(%%rsp)\n\tpopfq\n\tlea 128(%%rsp),%%rsp" ::: "memory", "cc");
#else
  __asm volatile("pushfl\n\torl $0x100,(%%esp)\n\tpopfl" ::: "memory", "cc");
#endif
}
static inline void tf_off(void) {
#ifdef __x86_64__
  __asm volatile("lea -128(%%rsp),%%rsp\n\tpushfq\n\tandq $~0x100,(%%rsp)\n\tpopfq\n\tlea 128(%%rsp),%%rsp" ::: "memory", "cc");
#else
  __asm volatile("pushfl\n\tandl $~0x100,(%%esp)\n\tpopfl" ::: "memory", "cc");
#endif
}

static seen_t *S;
static unsigned outer, rot;
static long step, only_at = -1, steps_total, nested_total;
static int depth, deep_every;
static void guarded_hash(unsigned k, const char *where);

/* same function, another case; and every other case in turn */
static unsigned mate(unsigned k, unsigned i) {
  for (unsigned j = 1; j < nc; ++j) {
    unsigned q = (k + i + j) % nc;
    if (q != k && C[q].f == C[k].f) return q;
  }
  return (k + 1) % nc;
}
static void on_trap(int sig, siginfo_t *si, void *u) {
  (void)sig; (void)si;
  if (depth >= 3) { FLAGS_OF(u) &= ~TF; return; }
  ++steps_total;
  const long my = step++;
  if (depth == 0 && only_at >= 0) {
    if (my < only_at) return;
    FLAGS_OF(u) &= ~TF;
    if (my > only_at) return;
  }
  char where[64];
  ++depth;
  res_t r;
  unsigned q = depth == 1 ? mate(outer, rot++) : rot++ % nc;
  snprintf(where, sizeof where, "inside:%s@%ld", C[outer].id, my);
  const bool deep = depth == 1 && deep_every && my % deep_every == deep_every / 2;
  if (deep) { long keep = step; step = 0; tf_on(); hash_call(&C[q], &r); tf_off(); step = keep; }
  else hash_call(&C[q], &r);
  ++nested_total;
  observe(S, q, &r, where);
  if (depth == 1) {
    q = rot++ % nc;
    hash_call(&C[q], &r);
    observe(S, q, &r, where);
  }
  --depth;
}


static void hang(void) {
  char line[96];
  int n = snprintf(line, sizeof line, "R %s hang - -\nDONE 0\n", C[outer].id);
  if (write(1, line, (size_t)n) != n) _exit(9);
}

static void guarded_step(unsigned k, const char *where) {
  res_t r;
  memset(&r, 0, sizeof r);
  outer = k;
  step = 0;
  depth = 0;
  if (GUARDED(({ tf_on(); hash(&C[k], &r); tf_off(); }))) {
    tf_off();
    snprintf(r.text, sizeof r.text, "fault:%d", (int)fault_sig);
    depth = 0;
  }
  observe(S, k, &r, where);
}
static void guarded_hash(unsigned k, const char *where) {
  res_t r;
  memset(&r, 0, sizeof r);
  outer = k;
  if (GUARDED(hash_call(&C[k], &r))) snprintf(r.text, sizeof r.text, "fault:%d", (int)fault_sig);
  observe(S, k, &r, where);
}

/* ---- threads ---- */
static volatile int go;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
static long loops;
static void *worker(void *arg) {
  uint64_t st = 0x9e3779b97f4a7c15ull * (uint64_t)((uintptr_t)arg + 1);
  seen_t *mine = calloc(nc, sizeof *mine);
  while (!go) ;
  for (long i = 0; i < loops; ++i) {
    st ^= st << 13; st ^= st >> 7; st ^= st << 17;
    unsigned k = (unsigned)(st >> 20) % nc;
    /* now and then everybody on the same few cases */
    if ((i >> 10) & 1) k = ((unsigned)(i >> 12) * 7 + (unsigned)((st >> 40) & 1)) % nc;
    res_t r;
    memset(&r, 0, sizeof r);
    hash_call(&C[k], &r);
    if (mine[k].n && mine[k].s[0].r == r.r && mine[k].s[0].e == r.e) continue;
    pthread_mutex_lock(&mx);
    observe(S, k, &r, "threads");
    pthread_mutex_unlock(&mx);
    if (!mine[k].n) { mine[k].s[0] = r; mine[k].n = 1; }
  }
  free(mine);
  return NULL;
}

int main(int argc, char **argv) {
  if (argc < 4) return 2;
  const char *mode = argv[2];
  const unsigned level = (unsigned)atoi(argv[3]);
  FILE *plan = fopen(argv[1], "r");
  if (!plan) return 2;
  const bool history = !strcmp(mode, "history");
  char *line = NULL;
  size_t cap = 0;
  static char fname[32], xs[32], ys[32], id[64];
  char *mt = NULL;
  msg_t M = {0};
  while (getline(&line, &cap, plan) > 0) {
    mt = realloc(mt, cap);
    if (sscanf(line, "%30s %30s %s %30s %30s", id, fname, mt, xs, ys) != 5) continue;
    const fn_t *f = find_fn(fname);
    if (!f) { printf("UNKNOWN %s\n", fname); continue; }
    parse_msg(&M, mt);
    C = realloc(C, (nc + 1) * sizeof *C);
    case_t *c = &C[nc++];
    memset(c, 0, sizeof *c);
    strcpy(c->id, id);
    c->f = f;
    c->n = M.n;
    c->x = strtoull(xs, NULL, 16);
    c->y = strtoull(ys, NULL, 16);
    c->cut = (int)(nc % 4);
    size_t len = (M.n + 64 + PG - 1) / PG * PG;
    uint8_t *p = mmap(NULL, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) return 3;
    memset(p, 0xcc, len);
    c->p = p + nc % 9;
    memcpy(c->p, M.b, M.n);
    if (!history && mprotect(p, len, PROT_READ)) return 3;
  }
  if (!nc) return 2;
  S = mmap(NULL, nc * sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (S == MAP_FAILED) return 3;
  fflush(stdout);
  if (strcmp(mode, "threads") && strcmp(mode, "first")) fault_setup();
  if (!strcmp(mode, "step") || !strcmp(mode, "first")) {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_trap;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGTRAP, &sa, NULL);
    hang_report = hang;
    signal(SIGALRM, on_alarm);
  }
  long calls = 0;
  if (!strcmp(mode, "step")) {
    deep_every = level > 1 ? 23 : 97;
    for (unsigned round = 0; round < level; ++round)
      for (unsigned k = 0; k < nc; ++k) {
        alarm(120);
        rot += round;
        guarded_step(k, "interrupted");
        ++calls;
      }
    alarm(0);
    printf("STAT %ld %ld\n", steps_total, nested_total);
  } else if (!strcmp(mode, "first")) {
    /* how many instructions the first call of a process takes */
    for (unsigned k = 0; k < nc; ++k) {
      long total = -1;
      for (long at = 0; total < 0 || at < total; ++at) {
        int fd[2];
        if (pipe(fd)) return 3;
        fflush(stdout);
        pid_t pid = fork();
        if (pid < 0) return 3;
        if (!pid) {
          close(fd[0]);
          fault_setup();
          struct sigaction sa;
          memset(&sa, 0, sizeof sa);
          sa.sa_sigaction = on_trap;
          sa.sa_flags = SA_SIGINFO | SA_NODEFER;
          sigaction(SIGTRAP, &sa, NULL);
          alarm(60);
          only_at = at;
          rot = (unsigned)at;
          guarded_step(k, "first-call");
          char ok = step > at;
          if (write(fd[1], &ok, 1) != 1) _exit(9);
          _exit(0);
        }
        close(fd[1]);
        char ok = 0;
        int st = 0;
        if (read(fd[0], &ok, 1) != 1) ok = -1;
        close(fd[0]);
        waitpid(pid, &st, 0);
        if (ok < 0) {
          printf("R %s died:%d - first-call@%ld\n", C[k].id, st, at);
          fflush(stdout);
          break;
        }
        ++calls;
        if (!ok) total = at;
        if (at > 20000) break;
      }
      steps_total += total;
    }
    printf("STAT %ld %ld\n", steps_total, calls);
  } else if (!strcmp(mode, "threads")) {
    loops = level > 1 ? 4000000 : 400000;
    pthread_t t[8];
    for (uintptr_t i = 0; i < 8; ++i) pthread_create(&t[i], NULL, worker, (void *)i);
    go = 1;
    for (int i = 0; i < 8; ++i) pthread_join(t[i], NULL);
    calls = 8 * loops;
  } else if (history) {
    /* same address, length and seed: the cases of a function share a buffer in turn */
    static uint8_t shared[1 << 16];
    for (unsigned round = 0; round < 3; ++round)
      for (unsigned k = 0; k < nc; ++k) {
        case_t keep = C[k];
        if (C[k].n > sizeof shared) continue;
        uint64_t xs2[3] = {keep.x, keep.x, keep.x ^ 1};
        /* a call with nearly the same bytes before: its result is not observed */
        for (int v = 0; v < 3; ++v) {
          C[k].p = shared + (round == 1 ? 3 : 0);
          memcpy(C[k].p, keep.p, keep.n);
          if (keep.n && v != 2) C[k].p[(v ? keep.n - 1 : keep.n / 2)] ^= 0x10;
          C[k].x = xs2[v];
          res_t r;
          memset(&r, 0, sizeof r);
          if (GUARDED(hash_call(&C[k], &r))) {}
          C[k].x = keep.x;
          memcpy(C[k].p, keep.p, keep.n);
          guarded_hash(k, "after-similar");
          guarded_hash(k, "repeated");
        }
        /* a shorter and a longer one at the same place */
        C[k].n = keep.n ? keep.n - 1 : 1;
        res_t r;
        memset(&r, 0, sizeof r);
        if (GUARDED(hash_call(&C[k], &r))) {}
        C[k].n = keep.n;
        guarded_hash(k, "after-shorter");
        if (memcmp(C[k].p, keep.p, keep.n)) {
          memset(&r, 0, sizeof r);
          strcpy(r.text, "input-modified");
          observe(S, k, &r, "history");
        }
        C[k] = keep;
        calls += 10;
      }
    /* many calls of the same and of every function */
    const long many = level > 1 ? 2000000 : 70000;
    for (unsigned k = 0; k < nc; k += 1 + nc / 40) {
      res_t last;
      memset(&last, 0, sizeof last);
      alarm(120);
      outer = k;
      for (long i = 0; i < many; ++i) {
        res_t r;
        memset(&r, 0, sizeof r);
        hash_call(&C[k], &r);
        if (i && r.r == last.r && r.e == last.e) continue;
        observe(S, k, &r, "many");
        last = r;
      }
      calls += many;
    }
    for (long i = 0; i < many; ++i) {
      unsigned k = (unsigned)(noise() % nc);
      res_t r;
      memset(&r, 0, sizeof r);
      hash_call(&C[k], &r);
      observe(S, k, &r, "mixed");
      ++calls;
    }
  }
  printf("DONE %ld\n", calls);
  return 0;
}
