/* ARMv7-A in the A32 instruction set, integer instructions, either byte order
 * (BE8: instructions are little-endian).  Single loads and stores may be
 * misaligned unless the machine is strict; those of several registers may not. */
#include "machine.h"
static uint32_t R[16];
static unsigned N, Z, C, V;

static uint32_t insn(uint32_t pc) {
  (void)fetch_insn(pc);
  const uint8_t *p = M.mem + pc;
  return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24;
}
static uint32_t ror(uint32_t v, unsigned s) { s &= 31; return s ? v >> s | v << (32 - s) : v; }
static uint32_t load_multi(uint32_t a) {
  if (a & 3) trap("misaligned-load-multiple-", a, 4);
  return (uint32_t)load(a, 4);
}
static void store_multi(uint32_t a, uint32_t v) {
  if (a & 3) trap("misaligned-store-multiple-", a, 4);
  store(a, 4, v);
}
static uint32_t shift(uint32_t v, unsigned type, unsigned n, bool reg, unsigned *carry) {
  *carry = C;
  if (!reg && n == 0) {
    if (type == 0) return v;
    if (type == 3) { *carry = v & 1; return C << 31 | v >> 1; } /* RRX */
    n = 32;
  }
  if (n == 0) return v;
  switch (type) {
  case 0: *carry = n <= 32 ? v >> (32 - n) & 1 : 0; if (n == 32) *carry = v & 1; return n < 32 ? v << n : 0;
  case 1: *carry = n <= 32 ? v >> (n - 1) & 1 : 0; return n < 32 ? v >> n : 0;
  case 2: if (n > 31) { *carry = v >> 31; return (uint32_t)((int32_t)v >> 31); }
    *carry = v >> (n - 1) & 1; return (uint32_t)((int32_t)v >> n);
  default: v = ror(v, n); *carry = v >> 31; return v;
  }
}
static bool passed(unsigned cond) {
  bool r;
  switch (cond >> 1) {
  case 0: r = Z; break;
  case 1: r = C; break;
  case 2: r = N; break;
  case 3: r = V; break;
  case 4: r = C && !Z; break;
  case 5: r = N == V; break;
  case 6: r = !Z && N == V; break;
  default: return true;
  }
  return (cond & 1) ? !r : r;
}
static uint32_t add(uint32_t a, uint32_t b, unsigned c, bool s) {
  uint64_t u = (uint64_t)a + b + c;
  uint32_t r = (uint32_t)u;
  if (s) { C = u >> 32; V = (~(a ^ b) & (a ^ r)) >> 31; N = r >> 31; Z = !r; }
  return r;
}

void run_arm(uint64_t entry) {
  for (int i = 0; i < 16; ++i) R[i] = 0x5a5a5a5a;
  N = Z = C = V = 0;
  R[13] = STACKTOP - 256;
  R[14] = HALT;
  uint32_t pc = (uint32_t)entry;
  M.steps = 0;
  while (pc != HALT) {
    uint32_t w = insn(pc), next = pc + 4;
    unsigned cond = w >> 28, rn = w >> 16 & 15, rd = w >> 12 & 15, rs = w >> 8 & 15, rm = w & 15;
    bool s = w >> 20 & 1;
    R[15] = pc + 8;
    if (cond == 15) {
      if ((w & 0xfd70f000) == 0xf550f000 || (w & 0xfc70f000) == 0xf450f000 || (w & 0xffffff00) == 0xf57ff000) { pc = next; continue; } /* pld, barriers */
      unsupported(w);
    }
    if (!passed(cond)) { pc = next; continue; }
#define WRITE(r, v) do { uint32_t v_ = (v); if ((r) == 15) next = v_ & ~3u; else R[r] = v_; } while (0)
    switch (w >> 25 & 7) {
    case 0: case 1: {
      bool imm = w >> 25 & 1;
      if (!imm && (w & 0x90) == 0x90) {
        if ((w & 0x60) == 0) { /* multiplications */
          uint64_t p;
          switch (w >> 20 & 31) {
          case 0: case 1: R[rn] = R[rm] * R[rs]; if (s) N = R[rn] >> 31, Z = !R[rn]; break;
          case 2: case 3: R[rn] = R[rm] * R[rs] + R[rd]; if (s) N = R[rn] >> 31, Z = !R[rn]; break;
          case 4: p = (uint64_t)R[rm] * R[rs] + R[rd] + R[rn]; R[rd] = (uint32_t)p; R[rn] = p >> 32; break; /* umaal */
          case 6: R[rn] = R[rd] - R[rm] * R[rs]; break; /* mls */
          case 8: case 9: p = (uint64_t)R[rm] * R[rs]; goto wide;
          case 10: case 11: p = (uint64_t)R[rm] * R[rs] + ((uint64_t)R[rn] << 32 | R[rd]); goto wide;
          case 12: case 13: p = (uint64_t)((int64_t)(int32_t)R[rm] * (int32_t)R[rs]); goto wide;
          case 14: case 15: p = (uint64_t)((int64_t)(int32_t)R[rm] * (int32_t)R[rs]) + ((uint64_t)R[rn] << 32 | R[rd]);
          wide: R[rd] = (uint32_t)p; R[rn] = p >> 32; if (s) N = p >> 63, Z = !p; break;
          default: unsupported(w);
          }
          break;
        }
        /* halfwords, signed bytes, doublewords */
        uint32_t off = (w >> 22 & 1) ? (rs << 4 | rm) : R[rm];
        bool pre = w >> 24 & 1, up = w >> 23 & 1, wb = !pre || (w >> 21 & 1);
        uint32_t base = R[rn], moved = up ? base + off : base - off, a = pre ? moved : base;
        unsigned op = w >> 5 & 3;
        uint32_t v = 0, v2 = 0;
        bool pair = false, ld = s;
        if (s) v = op == 1 ? (uint32_t)load(a, 2) : op == 2 ? (uint32_t)(int8_t)load(a, 1) : (uint32_t)(int16_t)load(a, 2);
        else if (op == 1) store(a, 2, R[rd]);
        else if (op == 2) { if (rd & 1) unsupported(w); v = load_multi(a); v2 = load_multi(a + 4); pair = ld = true; }
        else { if (rd & 1) unsupported(w); store_multi(a, R[rd]); store_multi(a + 4, R[rd + 1]); }
        if (wb) R[rn] = moved;
        if (ld) WRITE(rd, v);
        if (pair) WRITE(rd + 1, v2);
        break;
      }
      if ((w & 0x01900000) == 0x01000000) { /* no flags set by a comparison: others */
        if ((w & 0x0ff00000) == 0x03000000) { WRITE(rd, rn << 12 | (w & 0xfff)); break; }                        /* movw */
        if ((w & 0x0ff00000) == 0x03400000) { R[rd] = (R[rd] & 0xffff) | (rn << 12 | (w & 0xfff)) << 16; break; } /* movt */
        if ((w & 0x0fffff00) == 0x0320f000) break;                                                               /* nop and hints */
        if ((w & 0x0ffffff0) == 0x012fff10) { next = R[rm]; if (next & 1) unsupported(w); break; }               /* bx */
        if ((w & 0x0ffffff0) == 0x012fff30) { next = R[rm]; R[14] = pc + 4; if (next & 1) unsupported(w); break; } /* blx */
        if ((w & 0x0fff0ff0) == 0x016f0f10) { R[rd] = R[rm] ? (uint32_t)__builtin_clz(R[rm]) : 32; break; }      /* clz */
        if ((w & 0x0ff00090) == 0x01600080) { /* smulxy */
          int32_t x = (int16_t)(R[rm] >> (w >> 5 & 1) * 16), y = (int16_t)(R[rs] >> (w >> 6 & 1) * 16);
          R[rn] = (uint32_t)(x * y); break;
        }
        unsupported(w);
      }
      unsigned carry;
      uint32_t b;
      if (imm) { unsigned r = rs * 2; b = ror(w & 255, r); carry = r ? b >> 31 : C; }
      else if (w >> 4 & 1) b = shift(R[rm], w >> 5 & 3, R[rs] & 255, true, &carry);
      else b = shift(R[rm], w >> 5 & 3, w >> 7 & 31, false, &carry);
      uint32_t a = R[rn], r = 0;
      unsigned op = w >> 21 & 15;
      bool logic = false, keep = true;
      switch (op) {
      case 0: r = a & b; logic = true; break;
      case 1: r = a ^ b; logic = true; break;
      case 2: r = add(a, ~b, 1, s); break;
      case 3: r = add(b, ~a, 1, s); break;
      case 4: r = add(a, b, 0, s); break;
      case 5: r = add(a, b, C, s); break;
      case 6: r = add(a, ~b, C, s); break;
      case 7: r = add(b, ~a, C, s); break;
      case 8: r = a & b; logic = true; keep = false; break;
      case 9: r = a ^ b; logic = true; keep = false; break;
      case 10: add(a, ~b, 1, true); keep = false; break;
      case 11: add(a, b, 0, true); keep = false; break;
      case 12: r = a | b; logic = true; break;
      case 13: r = b; logic = true; break;
      case 14: r = a & ~b; logic = true; break;
      case 15: r = ~b; logic = true; break;
      }
      if (logic && s) { N = r >> 31; Z = !r; C = carry; }
      if (keep) WRITE(rd, r);
      break;
    }
    case 3:
      if (w >> 4 & 1) { /* media */
        uint32_t x = R[rm];
        if ((w & 0x0fff0ff0) == 0x06bf0f30) { R[rd] = __builtin_bswap32(x); break; }
        if ((w & 0x0fff0ff0) == 0x06bf0fb0) { R[rd] = (x & 0xff00ff) << 8 | (x >> 8 & 0xff00ff); break; }
        if ((w & 0x0fff0ff0) == 0x06ff0fb0) { R[rd] = (uint32_t)(int32_t)(int16_t)__builtin_bswap16((uint16_t)x); break; }
        if ((w & 0x0fff0ff0) == 0x06ff0f30) { uint32_t r = 0; for (int i = 0; i < 32; ++i) r = r << 1 | (x >> i & 1); R[rd] = r; break; }
        if ((w & 0x0f8003f0) == 0x06800070) { /* sxt, uxt, with or without an addition */
          uint32_t t = ror(x, (w >> 10 & 3) * 8), r;
          switch (w >> 20 & 7) {
          case 2: r = (uint32_t)(int8_t)t; break;
          case 3: r = (uint32_t)(int16_t)t; break;
          case 6: r = t & 255; break;
          case 7: r = t & 65535; break;
          case 4: r = t & 0xff00ff; if (rn != 15) unsupported(w); break;
          default: unsupported(w);
          }
          R[rd] = rn == 15 ? r : R[rn] + r;
          break;
        }
        if ((w & 0x0ff00030) == 0x06800010) { /* pkh */
          uint32_t sh = w >> 7 & 31;
          R[rd] = (w >> 6 & 1) ? (R[rn] & 0xffff0000) | ((uint32_t)((int32_t)x >> (sh ? sh : 31)) & 65535)
                               : (R[rn] & 65535) | ((x << sh) & 0xffff0000);
          break;
        }
        unsigned lsb = w >> 7 & 31, hi = w >> 16 & 31;
        if ((w & 0x0fe00070) == 0x07e00050) { R[rd] = hi == 31 ? x >> lsb : x >> lsb & ((2u << hi) - 1); break; }             /* ubfx */
        if ((w & 0x0fe00070) == 0x07a00050) { R[rd] = (uint32_t)((int32_t)(x << (31 - hi - lsb)) >> (31 - hi)); break; }     /* sbfx */
        if ((w & 0x0fe00070) == 0x07c00010) { /* bfi, bfc */
          uint32_t m = (hi - lsb == 31 ? ~0u : (2u << (hi - lsb)) - 1) << lsb;
          R[rd] = (R[rd] & ~m) | (rm == 15 ? 0 : (x << lsb & m));
          break;
        }
        if ((w & 0x0ff0f0d0) == 0x0750f010) { uint64_t p = (uint64_t)((int64_t)(int32_t)R[rm] * (int32_t)R[rs]); if (w >> 5 & 1) p += 0x80000000u; R[rn] = p >> 32; break; }
        if ((w & 0x0ff000f0) == 0x07f000f0) trap("abort", pc, 0); /* udf */
        unsupported(w);
      } /* fall through */
    case 2: { /* words and bytes */
      unsigned carry;
      uint32_t off = (w >> 25 & 1) ? shift(R[rm], w >> 5 & 3, w >> 7 & 31, false, &carry) : w & 0xfff;
      bool pre = w >> 24 & 1, up = w >> 23 & 1, byte = w >> 22 & 1, wb = !pre || (w >> 21 & 1);
      uint32_t base = R[rn], moved = up ? base + off : base - off, a = pre ? moved : base;
      if (s) {
        uint32_t v = (uint32_t)load(a, byte ? 1 : 4);
        if (wb) R[rn] = moved;
        WRITE(rd, v);
      } else {
        store(a, byte ? 1 : 4, R[rd]);
        if (wb) R[rn] = moved;
      }
      break;
    }
    case 4: { /* several registers */
      bool pre = w >> 24 & 1, up = w >> 23 & 1, wb = w >> 21 & 1;
      unsigned n = (unsigned)__builtin_popcount(w & 0xffff);
      if (w >> 22 & 1 || !n) unsupported(w);
      uint32_t base = R[rn], a = up ? base + (pre ? 4 : 0) : base - 4 * n + (pre ? 0 : 4);
      uint32_t end = up ? base + 4 * n : base - 4 * n;
      for (unsigned i = 0; i < 16; ++i)
        if (w >> i & 1) {
          if (s) { uint32_t v = load_multi(a); WRITE(i, v); }
          else store_multi(a, R[i]);
          a += 4;
        }
      if (wb && !(s && (w >> rn & 1))) R[rn] = end;
      break;
    }
    case 5:
      if (w >> 24 & 1) R[14] = pc + 4;
      next = pc + 8 + (uint32_t)((int32_t)(w << 8) >> 6);
      break;
    default: unsupported(w);
    }
    if (next & 3) trap("jump-astray", next, 4);
    pc = next;
  }
}
