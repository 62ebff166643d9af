/* Runs on the foreign machine: one call per invocation, described by P. */
#include "t1ha.h"
#include <string.h>

typedef struct {
  uint32_t fn, cut;
  uint64_t ptr, len, x, y, r, e, rc, noise;
} param_t;
volatile param_t P;

static uint64_t rnd(uint64_t *s) {
  *s ^= *s << 13;
  *s ^= *s >> 7;
  *s ^= *s << 17;
  return *s;
}

#ifndef T1HA2_DISABLED
static struct { uint64_t pre[4]; t1ha_context_t ctx; uint64_t post[4]; } CX;
static void feed(t1ha_context_t *ctx, const uint8_t *p, size_t n, unsigned cut, uint64_t s) {
  size_t i = 0;
  if (cut == 0) { t1ha2_update(ctx, p, n); return; }
  t1ha2_update(ctx, p, 0);
  while (i < n) {
    size_t k;
    switch (cut) {
    case 1: k = 1; break;
    case 2: k = 7; break;
    case 3: k = (i & 1) ? 33 : 31; break;
    case 4: k = 32; break;
    default: k = (size_t)(rnd(&s) >> 20) % ((rnd(&s) >> 20 & 3) ? 41 : 200);
    }
    if (k > n - i) k = n - i;
    t1ha2_update(ctx, p + i, k);
    i += k;
  }
  t1ha2_update(ctx, p + n, 0);
}
#endif

int t1ha_selfcheck__all_enabled(void);

void guest_run(void) {
  const uint8_t *p = (const uint8_t *)(uintptr_t)P.ptr;
  const size_t n = (size_t)P.len;
  const uint64_t x = P.x, y = P.y;
  uint64_t cells[5], r = 0, s = P.noise;
  for (int i = 0; i < 5; ++i) cells[i] = P.noise + (uint64_t)i;
  P.rc = 0;
  (void)y; (void)s;
  switch (P.fn) {
#ifndef T1HA2_DISABLED
  case 1: r = t1ha2_atonce(p, n, x); break;
  case 2: r = t1ha2_atonce128(&cells[2], p, n, x); break;
  case 3:
  case 4:
    memset(&CX, (int)(P.noise >> 9), sizeof CX);
    memset(CX.pre, 0x5a, sizeof CX.pre);
    memset(CX.post, 0xa5, sizeof CX.post);
    t1ha2_init(&CX.ctx, x, y);
    feed(&CX.ctx, p, n, P.cut, s);
    r = t1ha2_final(&CX.ctx, P.fn == 4 ? &cells[2] : NULL);
    for (int i = 0; i < 4; ++i)
      if (CX.pre[i] != UINT64_C(0x5a5a5a5a5a5a5a5a) || CX.post[i] != UINT64_C(0xa5a5a5a5a5a5a5a5)) P.rc = 2;
    break;
  case 13: /* long: n bytes with a period of 1 MiB, from offset x' of it, in pieces of cut bytes */
  case 14: {
    const uint64_t off = P.noise;
    memset(&CX.ctx, (int)(P.noise >> 9), sizeof CX.ctx);
    t1ha2_init(&CX.ctx, x, y);
    for (uint64_t i = 0, total = P.len; i < total;) {
      const uint64_t k = P.cut < total - i ? P.cut : total - i;
      t1ha2_update(&CX.ctx, p + ((i + off) & 1048575), (size_t)k);
      i += k;
    }
    r = t1ha2_final(&CX.ctx, P.fn == 14 ? &cells[2] : NULL);
    break;
  }
#endif
#ifndef T1HA1_DISABLED
  case 5: r = t1ha1_le(p, n, x); break;
  case 6: r = t1ha1_be(p, n, x); break;
#endif
#ifndef T1HA0_DISABLED
  case 7: r = t1ha0_32le(p, n, x); break;
  case 8: r = t1ha0_32be(p, n, x); break;
  case 9: r = t1ha0(p, n, x); break;
#if T1HA0_RUNTIME_SELECT
  case 10: r = t1ha0_resolve()(p, n, x); break;
#endif
#endif
  case 20: r = (uint64_t)(int64_t)t1ha_selfcheck__all_enabled(); break;
  default: P.rc = 9;
  }
  for (int i = 0; i < 5; ++i)
    if (cells[i] != P.noise + (uint64_t)i && !(i == 2 && (P.fn == 2 || P.fn == 4 || P.fn == 14))) P.rc = 1;
  P.r = r;
  P.e = cells[2];
}

/* the little of the C library that is needed */
void *memcpy(void *restrict d, const void *restrict s, size_t n) {
  volatile unsigned char *a = d;
  const unsigned char *b = s;
  while (n--) *a++ = *b++;
  return d;
}
void *memmove(void *d, const void *s, size_t n) {
  volatile unsigned char *a = d;
  const unsigned char *b = s;
  if ((uintptr_t)a < (uintptr_t)b) while (n--) *a++ = *b++;
  else while (n--) a[n] = b[n];
  return d;
}
void *memset(void *d, int c, size_t n) {
  volatile unsigned char *a = d;
  while (n--) *a++ = (unsigned char)c;
  return d;
}
int memcmp(const void *s, const void *t, size_t n) {
  const volatile unsigned char *a = s, *b = t;
  for (; n--; ++a, ++b) if (*a != *b) return *a < *b ? -1 : 1;
  return 0;
}
size_t strlen(const char *s) { const volatile char *p = s; while (*p) ++p; return (size_t)(p - s); }
void abort(void) { for (;;) __builtin_trap(); }
void __assert_fail(const char *a, const char *b, unsigned c, const char *d) { (void)a; (void)b; (void)c; (void)d; abort(); }
#if UINTPTR_MAX <= 0xffffffffu
typedef union { uint64_t v; struct {
#if __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__
  uint32_t hi, lo;
#else
  uint32_t lo, hi;
#endif
} w; } dw_t;
uint64_t __ashldi3(uint64_t v, int s) {
  dw_t a, r; a.v = v;
  if (s & 32) { r.w.lo = 0; r.w.hi = a.w.lo << (s & 31); }
  else if (!s) return v;
  else { r.w.lo = a.w.lo << s; r.w.hi = a.w.hi << s | a.w.lo >> (32 - s); }
  return r.v;
}
uint64_t __lshrdi3(uint64_t v, int s) {
  dw_t a, r; a.v = v;
  if (s & 32) { r.w.hi = 0; r.w.lo = a.w.hi >> (s & 31); }
  else if (!s) return v;
  else { r.w.hi = a.w.hi >> s; r.w.lo = a.w.lo >> s | a.w.hi << (32 - s); }
  return r.v;
}
int64_t __ashrdi3(int64_t v, int s) {
  dw_t a, r; a.v = (uint64_t)v;
  if (s & 32) { r.w.hi = (uint32_t)((int32_t)a.w.hi >> 31); r.w.lo = (uint32_t)((int32_t)a.w.hi >> (s & 31)); }
  else if (!s) return v;
  else { r.w.hi = (uint32_t)((int32_t)a.w.hi >> s); r.w.lo = a.w.lo >> s | a.w.hi << (32 - s); }
  return (int64_t)r.v;
}
uint64_t __muldi3(uint64_t x, uint64_t y) {
  dw_t a, b, r; a.v = x; b.v = y;
  uint32_t al = a.w.lo & 0xffff, ah = a.w.lo >> 16, bl = b.w.lo & 0xffff, bh = b.w.lo >> 16;
  uint32_t ll = al * bl, m1 = ah * bl, m2 = al * bh, hh = ah * bh;
  uint32_t mid = m1 + (ll >> 16), c = 0;
  mid += m2;
  if (mid < m2) c = 1;
  r.w.lo = mid << 16 | (ll & 0xffff);
  r.w.hi = hh + (mid >> 16) + (c << 16) + a.w.lo * b.w.hi + a.w.hi * b.w.lo;
  return r.v;
}
#else
__extension__ typedef unsigned __int128 u128_t;
__extension__ typedef union { u128_t v; struct {
#if __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__
  uint64_t hi, lo;
#else
  uint64_t lo, hi;
#endif
} w; } qw_t;
u128_t __multi3(u128_t x, u128_t y) {
  qw_t a, b, r; a.v = x; b.v = y;
  uint64_t al = a.w.lo & 0xffffffff, ah = a.w.lo >> 32, bl = b.w.lo & 0xffffffff, bh = b.w.lo >> 32;
  uint64_t ll = al * bl, m1 = ah * bl, m2 = al * bh, hh = ah * bh;
  uint64_t mid = m1 + (ll >> 32), c = 0;
  mid += m2;
  if (mid < m2) c = 1;
  r.w.lo = mid << 32 | (ll & 0xffffffff);
  r.w.hi = hh + (mid >> 32) + (c << 32) + a.w.lo * b.w.hi + a.w.hi * b.w.lo;
  return r.v;
}
#endif
static uint64_t divmod(uint64_t n, uint64_t d, uint64_t *rem) {
  uint64_t q = 0, r = 0;
  for (int i = 63; i >= 0; --i) {
    r = r << 1 | (n >> i & 1);
    if (r >= d) { r -= d; q |= (uint64_t)1 << i; }
  }
  *rem = r;
  return q;
}
uint64_t __udivdi3(uint64_t n, uint64_t d) { uint64_t r; return divmod(n, d, &r); }
uint64_t __umoddi3(uint64_t n, uint64_t d) { uint64_t r; divmod(n, d, &r); return r; }

#if defined(__arm__)
/* what compilers for ARM call where the processor has no division */
unsigned long long __aeabi_uidivmod(unsigned n, unsigned d) {
  unsigned q = 0, r = 0;
  for (int i = 31; i >= 0; --i) {
    unsigned top = r >> 31;
    r = r << 1 | (n >> i & 1);
    if (top || r >= d) { r -= d; q |= 1u << i; }
  }
#ifdef __ARMEB__
  return (unsigned long long)q << 32 | r;
#else
  return (unsigned long long)r << 32 | q;
#endif
}
unsigned __aeabi_uidiv(unsigned n, unsigned d) {
  unsigned long long v = __aeabi_uidivmod(n, d);
#ifdef __ARMEB__
  return (unsigned)(v >> 32);
#else
  return (unsigned)v;
#endif
}
#endif
