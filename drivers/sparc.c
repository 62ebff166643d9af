/* SPARC V8 (32-bit) and V9 (64-bit), integer instructions, big-endian. */
#include "machine.h"
#define DEPTH 250
static uint64_t G[8], W[(DEPTH + 2) * 16], Y;
static int cwp;
static struct { bool n, z, v, c; } icc, xcc;

static inline uint64_t *reg(unsigned r) {
  if (r < 8) return &G[r];
  if (r < 16) return &W[cwp * 16 + (r - 8)];
  if (r < 24) return &W[cwp * 16 + 8 + (r - 16)];
  return &W[(cwp - 1) * 16 + (r - 24)];
}
static inline void set(unsigned r, uint64_t v) { if (r) *reg(r) = M.wide ? v : (uint32_t)v; }
static inline uint64_t addr(uint64_t a) { return M.wide ? a : (uint32_t)a; }

static bool cond(unsigned c, bool n, bool z, bool v, bool cy) {
  bool r;
  switch (c & 7) {
  case 0: r = false; break;
  case 1: r = z; break;
  case 2: r = z || n != v; break;
  case 3: r = n != v; break;
  case 4: r = cy || z; break;
  case 5: r = cy; break;
  case 6: r = n; break;
  default: r = v; break;
  }
  return (c & 8) ? !r : r;
}
static bool rcond(unsigned c, int64_t v) {
  switch (c) {
  case 1: return v == 0;
  case 2: return v <= 0;
  case 3: return v < 0;
  case 5: return v != 0;
  case 6: return v > 0;
  case 7: return v >= 0;
  }
  return false;
}
static void flags_logic(uint64_t r) {
  icc.n = r >> 31 & 1; icc.z = (uint32_t)r == 0; icc.v = icc.c = 0;
  xcc.n = r >> 63; xcc.z = r == 0; xcc.v = xcc.c = 0;
}
static void flags_add(uint64_t a, uint64_t b, uint64_t r) {
  uint64_t v = (a ^ r) & (b ^ r), c = (a & b) | ((a | b) & ~r);
  flags_logic(r);
  icc.v = v >> 31 & 1; icc.c = c >> 31 & 1; xcc.v = v >> 63; xcc.c = c >> 63;
}
static void flags_sub(uint64_t a, uint64_t b, uint64_t r) {
  uint64_t v = (a ^ b) & (a ^ r), c = (~a & b) | ((~a | b) & r);
  flags_logic(r);
  icc.v = v >> 31 & 1; icc.c = c >> 31 & 1; xcc.v = v >> 63; xcc.c = c >> 63;
}

void run_sparc(uint64_t entry) {
  memset(G, 0x5a, sizeof G);
  memset(W, 0x5a, sizeof W);
  if (!M.wide) {
    for (unsigned i = 0; i < 8; ++i) G[i] = (uint32_t)G[i];
    for (unsigned i = 0; i < sizeof W / 8; ++i) W[i] = (uint32_t)W[i];
  }
  G[0] = 0;
  cwp = 1;
  *reg(14) = M.wide ? STACKTOP - 1024 - 2047 : STACKTOP - 1024;
  *reg(15) = HALT - 8;
  uint64_t pc = entry, npc = pc + 4;
  M.steps = 0;
  while (pc != HALT) {
    uint32_t w = fetch_insn(pc);
    uint64_t at = pc;
    pc = npc;
    npc += 4;
    unsigned op = w >> 30, rd = w >> 25 & 31, op3 = w >> 19 & 63, rs1 = w >> 14 & 31;
#define JUMP(target, taken, uncond, annul) do {                                \
      if (taken) { npc = (target); if ((uncond) && (annul)) { pc = npc; npc = pc + 4; } } \
      else if (annul) { pc = npc; npc = pc + 4; } } while (0)
    if (op == 1) {
      *reg(15) = at;
      npc = addr(at + ((int64_t)(int32_t)(w << 2)));
    } else if (op == 0) {
      unsigned op2 = w >> 22 & 7, c = w >> 25 & 15;
      bool annul = w >> 29 & 1;
      if (op2 == 4) set(rd, (uint64_t)(w & 0x3fffff) << 10);
      else if (op2 == 2) {
        uint64_t t = addr(at + ((int64_t)((int32_t)(w << 10) >> 10) * 4));
        JUMP(t, cond(c, icc.n, icc.z, icc.v, icc.c), c == 8, annul);
      } else if (op2 == 1) {
        uint64_t t = addr(at + ((int64_t)((int32_t)(w << 13) >> 13) * 4));
        bool x = w >> 21 & 1;
        bool k = x ? cond(c, xcc.n, xcc.z, xcc.v, xcc.c) : cond(c, icc.n, icc.z, icc.v, icc.c);
        JUMP(t, k, c == 8, annul);
      } else if (op2 == 3) {
        int32_t d = (int32_t)((w >> 20 & 3) << 14 | (w & 0x3fff));
        d = (int32_t)((uint32_t)d << 16) >> 16;
        JUMP(at + (int64_t)d * 4, rcond(w >> 25 & 7, (int64_t)*reg(rs1)), 0, annul);
      } else if (op2 == 0) trap("abort", at, 0);
      else unsupported(w);
    } else if (op == 2) {
      uint64_t a = *reg(rs1), b, r;
      bool i = w >> 13 & 1;
      if (op3 == 0x2c) { /* movcc */
        if (!(w >> 18 & 1)) unsupported(w);
        unsigned c = w >> 14 & 15;
        b = i ? (uint64_t)((int64_t)((int32_t)(w << 21) >> 21)) : *reg(w & 31);
        bool x = w >> 12 & 1;
        if (x ? cond(c, xcc.n, xcc.z, xcc.v, xcc.c) : cond(c, icc.n, icc.z, icc.v, icc.c)) set(rd, b);
        continue;
      }
      if (op3 == 0x2f) { /* movr */
        b = i ? (uint64_t)((int64_t)((int32_t)(w << 22) >> 22)) : *reg(w & 31);
        if (rcond(w >> 10 & 7, (int64_t)a)) set(rd, b);
        continue;
      }
      b = i ? (uint64_t)((int64_t)((int32_t)(w << 19) >> 19)) : *reg(w & 31);
      switch (op3) {
      case 0x00: set(rd, a + b); break;
      case 0x01: set(rd, a & b); break;
      case 0x02: set(rd, a | b); break;
      case 0x03: set(rd, a ^ b); break;
      case 0x04: set(rd, a - b); break;
      case 0x05: set(rd, a & ~b); break;
      case 0x06: set(rd, a | ~b); break;
      case 0x07: set(rd, a ^ ~b); break;
      case 0x08: set(rd, a + b + icc.c); break;
      case 0x09: set(rd, a * b); break;
      case 0x0a: case 0x1a: r = (uint64_t)(uint32_t)a * (uint32_t)b; Y = r >> 32; if (op3 & 16) flags_logic(r); set(rd, r); break;
      case 0x0b: case 0x1b: r = (uint64_t)((int64_t)(int32_t)a * (int32_t)b); Y = r >> 32; if (op3 & 16) flags_logic(r); set(rd, r); break;
      case 0x0c: set(rd, a - b - icc.c); break;
      case 0x0d: if (!b) trap("abort", at, 0); set(rd, a / b); break;
      case 0x0e: case 0x1e: {
        uint64_t n = Y << 32 | (uint32_t)a;
        if (!(uint32_t)b) trap("abort", at, 0);
        r = n / (uint32_t)b;
        if (r >> 32) r = 0xffffffff;
        if (op3 & 16) flags_logic(r);
        set(rd, r);
        break;
      }
      case 0x0f: case 0x1f: {
        int64_t n = (int64_t)(Y << 32 | (uint32_t)a);
        if (!(int32_t)b) trap("abort", at, 0);
        int64_t q = (int64_t)((__int128)n / (int32_t)b);
        if (q > INT32_MAX) q = INT32_MAX;
        if (q < INT32_MIN) q = INT32_MIN;
        if (op3 & 16) flags_logic((uint64_t)q);
        set(rd, (uint64_t)q);
        break;
      }
      case 0x10: r = a + b; flags_add(a, b, r); set(rd, r); break;
      case 0x11: r = a & b; flags_logic(r); set(rd, r); break;
      case 0x12: r = a | b; flags_logic(r); set(rd, r); break;
      case 0x13: r = a ^ b; flags_logic(r); set(rd, r); break;
      case 0x14: r = a - b; flags_sub(a, b, r); set(rd, r); break;
      case 0x15: r = a & ~b; flags_logic(r); set(rd, r); break;
      case 0x16: r = a | ~b; flags_logic(r); set(rd, r); break;
      case 0x17: r = a ^ ~b; flags_logic(r); set(rd, r); break;
      case 0x18: r = a + b + icc.c; flags_add(a, b, r); set(rd, r); break;
      case 0x1c: r = a - b - icc.c; flags_sub(a, b, r); set(rd, r); break;
      case 0x25: { unsigned s = (unsigned)b; set(rd, (w >> 12 & 1) ? a << (s & 63) : a << (s & 31)); break; }
      case 0x26: { unsigned s = (unsigned)b; set(rd, (w >> 12 & 1) ? a >> (s & 63) : (uint64_t)((uint32_t)a >> (s & 31))); break; }
      case 0x27: { unsigned s = (unsigned)b;
        set(rd, (w >> 12 & 1) ? (uint64_t)((int64_t)a >> (s & 63)) : (uint64_t)(int64_t)((int32_t)a >> (s & 31))); break; }
      case 0x28:
        if (rs1 == 0) set(rd, Y);
        else if (rs1 == 5) set(rd, at);
        else if (rs1 != 15) unsupported(w);
        break;
      case 0x2d: if (!b) trap("abort", at, 0); set(rd, (uint64_t)((__int128)(int64_t)a / (int64_t)b)); break;
      case 0x2e: set(rd, (uint64_t)__builtin_popcountll(b)); break;
      case 0x30: if (rd) unsupported(w); Y = (uint32_t)(a ^ b); break;
      case 0x38: r = a + b; set(rd, at); npc = addr(r); if (npc & 3) trap("misaligned-jump", npc, 0); break;
      case 0x39: r = a + b; if (--cwp < 1) trap("window", at, 0); npc = addr(r); break;
      case 0x3a: if (cond(w >> 25 & 15, icc.n, icc.z, icc.v, icc.c)) trap("abort", at, 0); break;
      case 0x3b: break;
      case 0x3c: r = a + b; if (++cwp >= DEPTH) trap("window", at, 0); set(rd, r); break;
      case 0x3d: r = a + b; if (--cwp < 1) trap("window", at, 0); set(rd, r); break;
      default: unsupported(w);
      }
    } else {
      uint64_t a = *reg(rs1);
      a = addr(a + ((w >> 13 & 1) ? (uint64_t)((int64_t)((int32_t)(w << 19) >> 19)) : *reg(w & 31)));
      switch (op3) {
      case 0x00: set(rd, load(a, 4)); break;
      case 0x01: set(rd, load(a, 1)); break;
      case 0x02: set(rd, load(a, 2)); break;
      case 0x03: { uint64_t v = load(a, 8); if (rd & 1) unsupported(w); set(rd, v >> 32); set(rd + 1, (uint32_t)v); break; }
      case 0x04: store(a, 4, *reg(rd)); break;
      case 0x05: store(a, 1, *reg(rd)); break;
      case 0x06: store(a, 2, *reg(rd)); break;
      case 0x07: if (rd & 1) unsupported(w); store(a, 8, *reg(rd) << 32 | (uint32_t)*reg(rd + 1)); break;
      case 0x08: set(rd, (uint64_t)(int64_t)(int32_t)load(a, 4)); break;
      case 0x09: set(rd, (uint64_t)(int64_t)(int8_t)load(a, 1)); break;
      case 0x0a: set(rd, (uint64_t)(int64_t)(int16_t)load(a, 2)); break;
      case 0x0b: set(rd, load(a, 8)); break;
      case 0x0e: store(a, 8, *reg(rd)); break;
      case 0x2d: break; /* prefetch */
      default: unsupported(w);
      }
    }
    G[0] = 0;
    if (!M.wide) { pc = (uint32_t)pc; npc = (uint32_t)npc; }
  }
}
