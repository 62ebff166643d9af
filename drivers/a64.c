/* AArch64, integer instructions, either byte order (instructions are little-endian). */
#include "machine.h"
static uint64_t X[32], SP;
static unsigned N, Z, C, V;

static uint32_t insn(uint64_t pc) {
  (void)fetch_insn(pc);
  const uint8_t *p = M.mem + pc;
  return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24;
}
static uint64_t lowmask(unsigned n) { return n >= 64 ? ~UINT64_C(0) : (UINT64_C(1) << n) - 1; }
static uint64_t cut(uint64_t v, bool x) { return x ? v : (uint32_t)v; }
static uint64_t rorw(uint64_t v, unsigned n, unsigned width) {
  n %= width;
  v &= lowmask(width);
  return n ? (v >> n | v << (width - n)) & lowmask(width) : v;
}
static uint64_t shifted(uint64_t v, unsigned type, unsigned n, bool x) {
  unsigned width = x ? 64 : 32;
  v = cut(v, x);
  switch (type) {
  case 0: return cut(v << n, x);
  case 1: return v >> n;
  case 2: return x ? (uint64_t)((int64_t)v >> n) : (uint32_t)((int32_t)v >> n);
  default: return rorw(v, n, width);
  }
}
static uint64_t extended(uint64_t v, unsigned opt, unsigned n) {
  switch (opt) {
  case 0: v = (uint8_t)v; break;
  case 1: v = (uint16_t)v; break;
  case 2: v = (uint32_t)v; break;
  case 4: v = (uint64_t)(int64_t)(int8_t)v; break;
  case 5: v = (uint64_t)(int64_t)(int16_t)v; break;
  case 6: v = (uint64_t)(int64_t)(int32_t)v; break;
  }
  return v << n;
}
static uint64_t add(uint64_t a, uint64_t b, unsigned c, bool x, bool s) {
  unsigned top = x ? 63 : 31;
  a = cut(a, x); b = cut(b, x);
  unsigned __int128 u = (unsigned __int128)a + b + c;
  uint64_t r = cut((uint64_t)u, x);
  if (s) { N = r >> top & 1; Z = !r; C = (unsigned)(u >> (top + 1)) & 1; V = (~(a ^ b) & (a ^ r)) >> top & 1; }
  return r;
}
static bool passed(unsigned cond) {
  bool r;
  switch (cond >> 1) {
  case 0: r = Z; break;
  case 1: r = C; break;
  case 2: r = N; break;
  case 3: r = V; break;
  case 4: r = C && !Z; break;
  case 5: r = N == V; break;
  case 6: r = !Z && N == V; break;
  default: return true;
  }
  return (cond & 1) ? !r : r;
}
static uint64_t bitmask(uint32_t w, bool x, unsigned immn, unsigned imms, unsigned immr, uint64_t *tmask) {
  unsigned v = immn << 6 | (~imms & 63), len = 31;
  while (len && !(v >> len & 1)) --len;
  if (len < 1 || (!x && immn)) unsupported(w);
  unsigned esize = 1u << len, levels = esize - 1, s = imms & levels, r = immr & levels, d = (s - r) & levels;
  uint64_t welem = lowmask(s + 1), telem = lowmask(d + 1), e = rorw(welem, r, esize), m = 0, t = 0;
  for (unsigned i = 0; i < 64; i += esize) m |= e << i, t |= telem << i;
  if (tmask) *tmask = cut(t, x);
  return cut(m, x);
}
static uint64_t get(unsigned r) { return r == 31 ? 0 : X[r]; }
static void set(unsigned r, uint64_t v, bool x) { if (r != 31) X[r] = cut(v, x); }
static uint64_t getsp(unsigned r) { return r == 31 ? SP : X[r]; }
static void setsp(unsigned r, uint64_t v, bool x) { if (r == 31) SP = cut(v, x); else X[r] = cut(v, x); }
static void loaded(uint64_t a, unsigned size, unsigned opc, unsigned rt) {
  uint64_t v = load(a, 1u << size);
  if (opc == 1) set(rt, v, true);
  else {
    int64_t t = size == 0 ? (int8_t)v : size == 1 ? (int16_t)v : (int32_t)v;
    set(rt, (uint64_t)t, opc == 2);
  }
}

void run_a64(uint64_t entry) {
  memset(X, 0x5a, sizeof X);
  N = Z = C = V = 0;
  SP = STACKTOP - 256;
  X[30] = HALT;
  uint64_t pc = entry;
  M.steps = 0;
  while (pc != HALT) {
    uint32_t w = insn(pc);
    uint64_t next = pc + 4;
    bool x = w >> 31;
    unsigned rd = w & 31, rn = w >> 5 & 31, rm = w >> 16 & 31, ra = w >> 10 & 31;
    switch (w >> 25 & 15) {
    case 8: case 9: /* immediates */
      switch (w >> 23 & 7) {
      case 0: case 1: {
        int64_t i = (int64_t)((uint64_t)((w >> 5 & 0x7ffff) << 2 | (w >> 29 & 3)) << 43) >> 43;
        set(rd, x ? (pc & ~UINT64_C(0xfff)) + (uint64_t)i * 4096 : pc + (uint64_t)i, true);
        break;
      }
      case 2: {
        uint64_t i = (uint64_t)(w >> 10 & 0xfff) << (w >> 22 & 1 ? 12 : 0);
        bool sub = w >> 30 & 1, s = w >> 29 & 1;
        uint64_t r = sub ? add(getsp(rn), ~i, 1, x, s) : add(getsp(rn), i, 0, x, s);
        if (s) set(rd, r, x); else setsp(rd, r, x);
        break;
      }
      case 4: {
        uint64_t m = bitmask(w, x, w >> 22 & 1, ra | (w >> 10 & 32), w >> 16 & 63, NULL), a = cut(get(rn), x), r;
        switch (w >> 29 & 3) {
        case 0: setsp(rd, a & m, x); break;
        case 1: setsp(rd, a | m, x); break;
        case 2: setsp(rd, a ^ m, x); break;
        default: r = a & m; N = r >> (x ? 63 : 31); Z = !r; C = V = 0; set(rd, r, x);
        }
        break;
      }
      case 5: {
        unsigned sh = (w >> 21 & 3) * 16;
        uint64_t i = (uint64_t)(w >> 5 & 0xffff) << sh;
        switch (w >> 29 & 3) {
        case 0: set(rd, ~i, x); break;
        case 2: set(rd, i, x); break;
        case 3: set(rd, (get(rd) & ~(UINT64_C(0xffff) << sh)) | i, x); break;
        default: unsupported(w);
        }
        break;
      }
      case 6: {
        unsigned immr = w >> 16 & 63, imms = w >> 10 & 63, opc = w >> 29 & 3;
        uint64_t t, m = bitmask(w, x, w >> 22 & 1, imms, immr, &t), src = cut(get(rn), x), dst = cut(get(rd), x);
        uint64_t turned = rorw(src, immr, x ? 64 : 32), bot;
        switch (opc) {
        case 0: bot = turned & m; set(rd, ((src >> imms & 1 ? ~UINT64_C(0) : 0) & ~t) | (bot & t), x); break;
        case 1: bot = (dst & ~m) | (turned & m); set(rd, (dst & ~t) | (bot & t), x); break;
        case 2: set(rd, turned & m & t, x); break;
        default: unsupported(w);
        }
        break;
      }
      case 7: {
        unsigned l = w >> 10 & 63;
        uint64_t a = cut(get(rn), x), b = cut(get(rm), x);
        if (x) set(rd, l ? b >> l | a << (64 - l) : b, true);
        else set(rd, l ? b >> l | a << (32 - l) : b, false);
        break;
      }
      default: unsupported(w);
      }
      break;
    case 10: case 11: /* branches */
      if ((w >> 26 & 31) == 5) {
        if (x) X[30] = next;
        next = pc + (uint64_t)((int64_t)((uint64_t)(w & 0x3ffffff) << 38) >> 36);
      } else if ((w & 0x7e000000) == 0x34000000) {
        bool z = !cut(get(rd), x);
        if (z != (bool)(w >> 24 & 1)) next = pc + (uint64_t)((int64_t)((uint64_t)(w >> 5 & 0x7ffff) << 45) >> 43);
      } else if ((w & 0x7e000000) == 0x36000000) {
        unsigned b = (w >> 19 & 31) | (w >> 26 & 32);
        if ((get(rd) >> b & 1) == (w >> 24 & 1)) next = pc + (uint64_t)((int64_t)((uint64_t)(w >> 5 & 0x3fff) << 50) >> 48);
      } else if ((w & 0xff000010) == 0x54000000) {
        if (passed(w & 15)) next = pc + (uint64_t)((int64_t)((uint64_t)(w >> 5 & 0x7ffff) << 45) >> 43);
      } else if ((w & 0xfffffc1f) == 0xd61f0000) next = get(rn);
      else if ((w & 0xfffffc1f) == 0xd63f0000) { uint64_t t = get(rn); X[30] = next; next = t; }
      else if ((w & 0xfffffc1f) == 0xd65f0000) next = get(rn);
      else if ((w & 0xffe0001f) == 0xd4200000) trap("abort", pc, 0);
      else if ((w & 0xfffff01f) == 0xd503201f) {} /* hints */
      else if ((w & 0xfffff01f) == 0xd503301f) {} /* barriers */
      else unsupported(w);
      break;
    case 4: case 6: case 12: case 14: { /* loads and stores */
      unsigned size = w >> 30;
      if ((w & 0x3a000000) == 0x28000000) { /* pairs */
        unsigned opc = size, mode = w >> 23 & 3, rt2 = ra;
        if (w >> 26 & 1 || opc == 3) unsupported(w);
        bool ld = w >> 22 & 1;
        unsigned n = opc == 2 ? 8 : 4;
        if (!ld && opc == 1) unsupported(w);
        uint64_t off = (uint64_t)((int64_t)((uint64_t)(w >> 15 & 127) << 57) >> 57) * n;
        uint64_t base = getsp(rn), a = mode == 1 ? base : base + off;
        if (ld) {
          uint64_t u = load(a, n), v = load(a + n, n);
          if (opc == 1) u = (uint64_t)(int64_t)(int32_t)u, v = (uint64_t)(int64_t)(int32_t)v;
          set(rd, u, true); set(rt2, v, true);
        } else { store(a, n, get(rd)); store(a + n, n, get(rt2)); }
        if (mode & 1) setsp(rn, base + off, true);
        break;
      }
      if ((w & 0x3b000000) == 0x18000000) { /* literals */
        uint64_t a = pc + (uint64_t)((int64_t)((uint64_t)(w >> 5 & 0x7ffff) << 45) >> 43);
        if (w >> 26 & 1) unsupported(w);
        if (size == 0) set(rd, load(a, 4), true);
        else if (size == 1) set(rd, load(a, 8), true);
        else if (size == 2) set(rd, (uint64_t)(int64_t)(int32_t)load(a, 4), true);
        break;
      }
      if ((w & 0x3a000000) != 0x38000000 || w >> 26 & 1) unsupported(w);
      unsigned opc = w >> 22 & 3;
      uint64_t base = getsp(rn), a, wb = 0;
      bool back = false;
      if (w >> 24 & 1) a = base + ((uint64_t)(w >> 10 & 0xfff) << size);
      else if (w >> 21 & 1) {
        if ((w >> 10 & 3) != 2) unsupported(w);
        a = base + extended(get(rm), w >> 13 & 7, w >> 12 & 1 ? size : 0);
      } else {
        uint64_t i = (uint64_t)((int64_t)((uint64_t)(w >> 12 & 0x1ff) << 55) >> 55);
        unsigned mode = w >> 10 & 3;
        if (mode == 2) unsupported(w);
        a = mode == 1 ? base : base + i;
        if (mode) back = true, wb = base + i;
      }
      if (size == 3 && opc == 2) break; /* prefetch */
      if (opc == 0) store(a, 1u << size, get(rd)); else loaded(a, size, opc, rd);
      if (back) setsp(rn, wb, true);
      break;
    }
    case 5: case 13: { /* registers */
      uint64_t a = cut(get(rn), x), b = get(rm), r;
      unsigned op = w >> 29 & 3;
      if ((w & 0x1f000000) == 0x0a000000) { /* logical */
        b = shifted(b, w >> 22 & 3, w >> 10 & 63, x);
        if (w >> 21 & 1) b = cut(~b, x);
        r = op == 1 ? a | b : op == 2 ? a ^ b : a & b;
        if (op == 3) { N = r >> (x ? 63 : 31) & 1; Z = !r; C = V = 0; }
        set(rd, r, x);
      } else if ((w & 0x1f200000) == 0x0b000000) { /* add, sub */
        b = shifted(b, w >> 22 & 3, w >> 10 & 63, x);
        set(rd, (op & 2) ? add(a, ~b, 1, x, op & 1) : add(a, b, 0, x, op & 1), x);
      } else if ((w & 0x1fe00000) == 0x0b200000) {
        b = extended(b, w >> 13 & 7, w >> 10 & 7);
        r = (op & 2) ? add(getsp(rn), ~b, 1, x, op & 1) : add(getsp(rn), b, 0, x, op & 1);
        if (op & 1) set(rd, r, x); else setsp(rd, r, x);
      } else if ((w & 0x1fe0fc00) == 0x1a000000) {
        set(rd, (op & 2) ? add(a, ~b, C, x, op & 1) : add(a, b, C, x, op & 1), x);
      } else if ((w & 0x3fe00410) == 0x3a400000) { /* conditional comparison */
        if (w >> 11 & 1) b = rm;
        if (passed(w >> 12 & 15)) { if (w >> 30 & 1) add(a, ~b, 1, x, true); else add(a, b, 0, x, true); }
        else { N = w >> 3 & 1; Z = w >> 2 & 1; C = w >> 1 & 1; V = w & 1; }
      } else if ((w & 0x3fe00800) == 0x1a800000) { /* conditional selection */
        bool inv = w >> 30 & 1, inc = w >> 10 & 1;
        if (passed(w >> 12 & 15)) r = a;
        else { r = b; if (inv) r = ~r; if (inc) ++r; }
        set(rd, r, x);
      } else if ((w & 0x1f000000) == 0x1b000000) {
        if (op) unsupported(w);
        uint64_t c = get(ra);
        bool sub = w >> 15 & 1;
        switch (w >> 21 & 7) {
        case 0: r = a * b; break;
        case 1: r = (uint64_t)((int64_t)(int32_t)a * (int32_t)b); break;
        case 5: r = (uint64_t)(uint32_t)a * (uint32_t)b; break;
        case 2: set(rd, (uint64_t)((__int128)(int64_t)a * (int64_t)b >> 64), true); goto done;
        case 6: set(rd, (uint64_t)((unsigned __int128)a * b >> 64), true); goto done;
        default: unsupported(w);
        }
        set(rd, sub ? c - r : c + r, x);
      } else if ((w & 0x7fe00000) == 0x1ac00000) {
        unsigned width = x ? 64 : 32;
        b = cut(b, x);
        switch (ra) {
        case 2: r = b ? a / b : 0; break;
        case 3: if (x) r = b ? (a == UINT64_C(1) << 63 && b == ~UINT64_C(0) ? a : (uint64_t)((int64_t)a / (int64_t)b)) : 0;
          else r = b ? (uint64_t)((int64_t)(int32_t)a / (int32_t)b) : 0; break;
        case 8: r = shifted(a, 0, b % width, x); break;
        case 9: r = shifted(a, 1, b % width, x); break;
        case 10: r = shifted(a, 2, b % width, x); break;
        case 11: r = shifted(a, 3, b % width, x); break;
        default: unsupported(w);
        }
        set(rd, r, x);
      } else if ((w & 0x7fff0000) == 0x5ac00000) {
        switch (ra) {
        case 0: r = 0; for (unsigned i = 0; i < (x ? 64 : 32); ++i) r = r << 1 | (a >> i & 1); break;
        case 1: r = (a & UINT64_C(0xff00ff00ff00ff)) << 8 | (a >> 8 & UINT64_C(0xff00ff00ff00ff)); break;
        case 2: r = x ? (uint64_t)__builtin_bswap32((uint32_t)(a >> 32)) << 32 | __builtin_bswap32((uint32_t)a) : __builtin_bswap32((uint32_t)a); break;
        case 3: r = __builtin_bswap64(a); break;
        case 4: r = a ? (uint64_t)__builtin_clzll(a) - (x ? 0 : 32) : (x ? 64 : 32); break;
        default: unsupported(w);
        }
        set(rd, r, x);
      } else unsupported(w);
    done:
      break;
    }
    default: if (w >> 16 == 0) trap("abort", pc, 0); unsupported(w);
    }
    if (next & 3) trap("jump-astray", next, 4);
    pc = next;
  }
}
