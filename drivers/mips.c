/* MIPS32r2 / MIPS64r2, integer instructions, either byte order. */
#include "machine.h"
static uint64_t R[32], HI, LO;
#define S32(x) ((uint64_t)(int64_t)(int32_t)(x))

static uint64_t addr(uint64_t a) { return M.wide ? a : (uint32_t)a; }

/* the unaligned-access instructions: bytes from the address to the word's end */
static uint64_t lw_left(uint64_t a, uint64_t old, unsigned size) {
  uint64_t base = a & ~(uint64_t)(size - 1);
  unsigned k = M.be ? (unsigned)(a - base) : (unsigned)(size - 1 - (a - base)); /* bytes missing */
  unsigned n = size - k;
  uint64_t from = M.be ? a : base;
  permit(from, n, false);
  uint64_t v = load_raw(from, n);
  if (n == 8) return v;
  v <<= 8 * k;
  uint64_t keep = (UINT64_C(1) << (8 * k)) - 1;
  v |= old & keep;
  return size == 4 ? S32(v) : v;
}
static uint64_t lw_right(uint64_t a, uint64_t old, unsigned size) {
  uint64_t base = a & ~(uint64_t)(size - 1);
  unsigned n = M.be ? (unsigned)(a - base) + 1 : (unsigned)(size - (a - base));
  uint64_t from = M.be ? base : a;
  permit(from, n, false);
  uint64_t v = load_raw(from, n);
  if (n == size) return size == 4 ? S32(v) : v;
  uint64_t mask = (UINT64_C(1) << (8 * n)) - 1;
  v |= old & ~mask;
  return size == 4 ? S32((uint32_t)v) : v;
}
static void sw_left(uint64_t a, uint64_t v, unsigned size) {
  uint64_t base = a & ~(uint64_t)(size - 1);
  unsigned k = M.be ? (unsigned)(a - base) : (unsigned)(size - 1 - (a - base));
  unsigned n = size - k;
  uint64_t from = M.be ? a : base;
  permit(from, n, true);
  if (size == 4) v = (uint32_t)v;
  store_raw(from, n, v >> (8 * k));
}
static void sw_right(uint64_t a, uint64_t v, unsigned size) {
  uint64_t base = a & ~(uint64_t)(size - 1);
  unsigned n = M.be ? (unsigned)(a - base) + 1 : (unsigned)(size - (a - base));
  uint64_t from = M.be ? base : a;
  permit(from, n, true);
  store_raw(from, n, v);
}
static uint32_t ror32(uint32_t v, unsigned s) { return s ? v >> s | v << (32 - s) : v; }
static uint64_t ror64(uint64_t v, unsigned s) { return s ? v >> s | v << (64 - s) : v; }

void run_mips(uint64_t entry) {
  memset(R, 0x5a, sizeof R);
  R[0] = 0;
  R[29] = STACKTOP - 256;
  R[31] = HALT;
  uint64_t pc = entry, npc = pc + 4;
  M.steps = 0;
  while (pc != HALT) {
    uint32_t w = fetch_insn(pc);
    uint64_t at = pc;
    pc = npc;
    npc += 4;
    unsigned op = w >> 26, rs = w >> 21 & 31, rt = w >> 16 & 31, rd = w >> 11 & 31, sa = w >> 6 & 31, fn = w & 63;
    int64_t imm = (int16_t)w;
    uint64_t uimm = (uint16_t)w, a = R[rs], b = R[rt];
#define BR(cond) do { if (cond) npc = pc + (imm << 2); } while (0)
#define BRL(cond) do { if (cond) npc = pc + (imm << 2); else { pc = npc; npc = pc + 4; } } while (0)
    switch (op) {
    case 0:
      switch (fn) {
      case 0x00: R[rd] = S32(b << sa); break;
      case 0x02: R[rd] = (rs & 1) ? S32(ror32((uint32_t)b, sa)) : S32((uint32_t)b >> sa); break;
      case 0x03: R[rd] = S32((int32_t)b >> sa); break;
      case 0x04: R[rd] = S32((uint32_t)b << (a & 31)); break;
      case 0x06: R[rd] = (sa & 1) ? S32(ror32((uint32_t)b, a & 31)) : S32((uint32_t)b >> (a & 31)); break;
      case 0x07: R[rd] = S32((int32_t)b >> (a & 31)); break;
      case 0x08: npc = addr(a); break;
      case 0x09: R[rd] = pc + 4; npc = addr(a); break;
      case 0x0a: if (!b) R[rd] = a; break;
      case 0x0b: if (b) R[rd] = a; break;
      case 0x0c: case 0x0d: trap("abort", at, 0);
      case 0x0f: break;
      case 0x10: R[rd] = HI; break;
      case 0x11: HI = a; break;
      case 0x12: R[rd] = LO; break;
      case 0x13: LO = a; break;
      case 0x14: R[rd] = b << (a & 63); break;
      case 0x16: R[rd] = (sa & 1) ? ror64(b, a & 63) : b >> (a & 63); break;
      case 0x17: R[rd] = (uint64_t)((int64_t)b >> (a & 63)); break;
      case 0x18: { int64_t p = (int64_t)(int32_t)a * (int32_t)b; LO = S32(p); HI = S32(p >> 32); break; }
      case 0x19: { uint64_t p = (uint64_t)(uint32_t)a * (uint32_t)b; LO = S32(p); HI = S32(p >> 32); break; }
      case 0x1a: if ((int32_t)b) { LO = S32((int64_t)(int32_t)a / (int32_t)b); HI = S32((int64_t)(int32_t)a % (int32_t)b); } break;
      case 0x1b: if ((uint32_t)b) { LO = S32((uint32_t)a / (uint32_t)b); HI = S32((uint32_t)a % (uint32_t)b); } break;
      case 0x1c: { __int128 p = (__int128)(int64_t)a * (int64_t)b; LO = (uint64_t)p; HI = (uint64_t)(p >> 64); break; }
      case 0x1d: { unsigned __int128 p = (unsigned __int128)a * b; LO = (uint64_t)p; HI = (uint64_t)(p >> 64); break; }
      case 0x1e: if (b) { LO = (uint64_t)((__int128)(int64_t)a / (int64_t)b); HI = (uint64_t)((__int128)(int64_t)a % (int64_t)b); } break;
      case 0x1f: if (b) { LO = a / b; HI = a % b; } break;
      case 0x20: case 0x21: R[rd] = S32(a + b); break;
      case 0x22: case 0x23: R[rd] = S32(a - b); break;
      case 0x24: R[rd] = a & b; break;
      case 0x25: R[rd] = a | b; break;
      case 0x26: R[rd] = a ^ b; break;
      case 0x27: R[rd] = ~(a | b); break;
      case 0x2a: R[rd] = (int64_t)a < (int64_t)b; break;
      case 0x2b: R[rd] = a < b; break;
      case 0x2c: case 0x2d: R[rd] = a + b; break;
      case 0x2e: case 0x2f: R[rd] = a - b; break;
      case 0x30: if ((int64_t)a >= (int64_t)b) trap("abort", at, 0); break;
      case 0x31: if (a >= b) trap("abort", at, 0); break;
      case 0x32: if ((int64_t)a < (int64_t)b) trap("abort", at, 0); break;
      case 0x33: if (a < b) trap("abort", at, 0); break;
      case 0x34: if (a == b) trap("abort", at, 0); break;
      case 0x36: if (a != b) trap("abort", at, 0); break;
      case 0x38: R[rd] = b << sa; break;
      case 0x3a: R[rd] = (rs & 1) ? ror64(b, sa) : b >> sa; break;
      case 0x3b: R[rd] = (uint64_t)((int64_t)b >> sa); break;
      case 0x3c: R[rd] = b << (sa + 32); break;
      case 0x3e: R[rd] = (rs & 1) ? ror64(b, sa + 32) : b >> (sa + 32); break;
      case 0x3f: R[rd] = (uint64_t)((int64_t)b >> (sa + 32)); break;
      default: unsupported(w);
      }
      break;
    case 1:
      switch (rt) {
      case 0: BR((int64_t)a < 0); break;
      case 1: BR((int64_t)a >= 0); break;
      case 2: BRL((int64_t)a < 0); break;
      case 3: BRL((int64_t)a >= 0); break;
      case 16: { uint64_t l = pc + 4; BR((int64_t)a < 0); R[31] = l; break; }
      case 17: { uint64_t l = pc + 4; BR((int64_t)a >= 0); R[31] = l; break; }
      case 31: break; /* synci */
      default: unsupported(w);
      }
      break;
    case 2: npc = (pc & ~UINT64_C(0x0fffffff)) | (uint64_t)(w & 0x3ffffff) << 2; break;
    case 3: R[31] = pc + 4; npc = (pc & ~UINT64_C(0x0fffffff)) | (uint64_t)(w & 0x3ffffff) << 2; break;
    case 4: BR(a == b); break;
    case 5: BR(a != b); break;
    case 6: BR((int64_t)a <= 0); break;
    case 7: BR((int64_t)a > 0); break;
    case 8: case 9: R[rt] = S32(a + imm); break;
    case 10: R[rt] = (int64_t)a < imm; break;
    case 11: R[rt] = a < (uint64_t)imm; break;
    case 12: R[rt] = a & uimm; break;
    case 13: R[rt] = a | uimm; break;
    case 14: R[rt] = a ^ uimm; break;
    case 15: R[rt] = S32(uimm << 16); break;
    case 20: BRL(a == b); break;
    case 21: BRL(a != b); break;
    case 22: BRL((int64_t)a <= 0); break;
    case 23: BRL((int64_t)a > 0); break;
    case 24: case 25: R[rt] = a + imm; break;
    case 26: R[rt] = lw_left(addr(a + imm), b, 8); break;
    case 27: R[rt] = lw_right(addr(a + imm), b, 8); break;
    case 28:
      switch (fn) {
      case 0: case 4: { int64_t acc = (int64_t)(HI << 32 | (uint32_t)LO), p = (int64_t)(int32_t)a * (int32_t)b;
        acc = (int64_t)(fn ? (uint64_t)acc - (uint64_t)p : (uint64_t)acc + (uint64_t)p); LO = S32(acc); HI = S32(acc >> 32); break; }
      case 1: case 5: { uint64_t acc = HI << 32 | (uint32_t)LO, p = (uint64_t)(uint32_t)a * (uint32_t)b;
        acc = fn == 5 ? acc - p : acc + p; LO = S32(acc); HI = S32(acc >> 32); break; }
      case 2: R[rd] = S32((uint32_t)a * (uint32_t)b); break;
      case 0x20: R[rd] = (uint32_t)a ? (uint64_t)__builtin_clz((uint32_t)a) : 32; break;
      case 0x21: R[rd] = ~(uint32_t)a ? (uint64_t)__builtin_clz(~(uint32_t)a) : 32; break;
      case 0x24: R[rd] = a ? (uint64_t)__builtin_clzll(a) : 64; break;
      case 0x25: R[rd] = ~a ? (uint64_t)__builtin_clzll(~a) : 64; break;
      default: unsupported(w);
      }
      break;
    case 31: {
      unsigned msb = rd, lsb = sa;
#define MASK(n) ((n) >= 64 ? ~UINT64_C(0) : (UINT64_C(1) << (n)) - 1)
#define INS(l, m) R[rt] = (b & ~(MASK((m) - (l) + 1) << (l))) | (a & MASK((m) - (l) + 1)) << (l)
      switch (fn) {
      case 0: R[rt] = S32(((uint32_t)a >> lsb) & MASK(msb + 1)); break;
      case 1: R[rt] = (a >> lsb) & MASK(msb + 1 + 32); break;
      case 2: R[rt] = (a >> (lsb + 32)) & MASK(msb + 1); break;
      case 3: R[rt] = (a >> lsb) & MASK(msb + 1); break;
      case 4: INS(lsb, msb); R[rt] = S32(R[rt]); break;
      case 5: INS(lsb, msb + 32); break;
      case 6: INS(lsb + 32, msb + 32); break;
      case 7: INS(lsb, msb); break;
      case 0x20:
        if (sa == 2) R[rd] = S32((b & 0xff00ff) << 8 | (b >> 8 & 0xff00ff));
        else if (sa == 16) R[rd] = (uint64_t)(int64_t)(int8_t)b;
        else if (sa == 24) R[rd] = (uint64_t)(int64_t)(int16_t)b;
        else unsupported(w);
        break;
      case 0x24:
        if (sa == 2) R[rd] = (b & UINT64_C(0x00ff00ff00ff00ff)) << 8 | (b >> 8 & UINT64_C(0x00ff00ff00ff00ff));
        else if (sa == 5) R[rd] = b << 48 | (b & 0xffff0000) << 16 | (b >> 16 & 0xffff0000) | b >> 48;
        else unsupported(w);
        break;
      default: unsupported(w);
      }
      break;
    }
    case 32: R[rt] = (uint64_t)(int64_t)(int8_t)load(addr(a + imm), 1); break;
    case 33: R[rt] = (uint64_t)(int64_t)(int16_t)load(addr(a + imm), 2); break;
    case 34: R[rt] = lw_left(addr(a + imm), b, 4); break;
    case 35: R[rt] = S32(load(addr(a + imm), 4)); break;
    case 36: R[rt] = load(addr(a + imm), 1); break;
    case 37: R[rt] = load(addr(a + imm), 2); break;
    case 38: R[rt] = lw_right(addr(a + imm), b, 4); break;
    case 39: R[rt] = load(addr(a + imm), 4); break;
    case 40: store(addr(a + imm), 1, b); break;
    case 41: store(addr(a + imm), 2, b); break;
    case 42: sw_left(addr(a + imm), b, 4); break;
    case 43: store(addr(a + imm), 4, b); break;
    case 44: sw_left(addr(a + imm), b, 8); break;
    case 45: sw_right(addr(a + imm), b, 8); break;
    case 46: sw_right(addr(a + imm), b, 4); break;
    case 47: case 51: break; /* cache, pref */
    case 55: R[rt] = load(addr(a + imm), 8); break;
    case 63: store(addr(a + imm), 8, b); break;
    default: unsupported(w);
    }
    R[0] = 0;
    if (!M.wide) { pc = (uint32_t)pc; npc = (uint32_t)npc; }
  }
}
