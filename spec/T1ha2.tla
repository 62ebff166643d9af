--------------------------------- MODULE T1ha2 -------------------------------
(* t1ha2: the at-once hashes and the streaming state.                       *)
EXTENDS Mixers, Messages, SequencesExt

InitAB(x, y) == << x, y >>
InitCD(x, y) == << WAdd(WRotr(y, 23), WNot(x)), WAdd(WNot(y), WRotr(x, 19)) >>

(* absorb one 32-byte block, given as four words, into << a, b, c, d >> *)
Absorb(s, w) ==
  LET a == s[1]  b == s[2]  c == s[3]  d == s[4]
      d02 == WAdd(w[1], WRotr(WAdd(w[3], d), 56))
      c13 == WAdd(w[2], WRotr(WAdd(w[4], c), 19))
  IN  << WXor(a, WMulLo(WAdd(d02, w[4]), Prime5)),
         WXor(b, WMulLo(WAdd(c13, w[3]), Prime6)),
         WXor(c, WAdd(a, WRotr(w[1], 57))),
         WXor(d, WAdd(b, WRotr(w[2], 38))) >>

BlockWords(m, o) == << LoadLE(m, o, 8), LoadLE(m, o + 8, 8), LoadLE(m, o + 16, 8), LoadLE(m, o + 24, 8) >>

AbsorbAll(s, m, o, n) ==
  FoldLeft(LAMBDA st, off : Absorb(st, BlockWords(m, off)), s, BlockOffs(o, 32, n))

Squash(s) == << WXor(s[1], WMulLo(WAdd(s[3], WRotr(s[4], 23)), Prime6)),
                WXor(s[2], WMulLo(WAdd(WRotr(s[3], 19), s[4]), Prime5)) >>

(* 64-bit closing: the r <= 32 bytes of m left at offset o *)
Close64(a, b, m, o, r) ==
  LET t == TailAB(a, b, r, LAMBDA k : LoadLE(m, o + 8 * k, 8),
                  LoadLE(m, LastOff(o, r, 8), LastSize(r, 8)))
  IN  Final64(t[1], t[2])

(* 128-bit closing  ->  << returned low half, stored high half >> *)
Close128(s, m, o, r) ==
  LET Wd(k) == LoadLE(m, o + 8 * k, 8)
      n1 == IF r > 24 THEN 1 ELSE 0
      n2 == IF r > 16 THEN n1 + 1 ELSE n1
      a0 == s[1]  b0 == s[2]  c0 == s[3]  d0 == s[4]
      m1 == IF r > 24 THEN Mixup64(a0, d0, Wd(0), Prime4)  ELSE << a0, d0 >>      \* a, d
      m2 == IF r > 16 THEN Mixup64(b0, m1[1], Wd(n1), Prime3) ELSE << b0, m1[1] >> \* b, a
      m3 == IF r > 8  THEN Mixup64(c0, m2[1], Wd(n2), Prime2) ELSE << c0, m2[1] >> \* c, b
      m4 == IF r > 0  THEN Mixup64(m1[2], m3[1], LoadLE(m, LastOff(o, r, 8), LastSize(r, 8)), Prime1)
                      ELSE << m1[2], m3[1] >>                                      \* d, c
      a == m2[2]  b == m3[2]  c == m4[2]  d == m4[1]
      f1 == Mixup64(a, b, WXor(WRotr(c, 41), d), Prime0)           \* a, b
      f2 == Mixup64(f1[2], c, WXor(WRotr(d, 23), f1[1]), Prime6)   \* b, c
      f3 == Mixup64(f2[2], d, WXor(WRotr(f1[1], 19), f2[1]), Prime5) \* c, d
      f4 == Mixup64(f3[2], f1[1], WXor(WRotr(f2[1], 31), f3[1]), Prime4) \* d, a
  IN  << WXor(f4[2], f2[1]), WAdd(f3[1], f4[1]) >>

(* ------------------------------ at once --------------------------------- *)
Rest(n) == IF n > 32 THEN n % 32 ELSE n
Blocks(n) == IF n > 32 THEN n \div 32 ELSE 0

T1ha2AtOnce(m, seed) ==
  LET n  == m.n
      ab == InitAB(seed, WNat(n))
      s  == IF n > 32
              THEN Squash(AbsorbAll(ab \o InitCD(seed, WNat(n)), m, 0, n \div 32))
              ELSE ab
  IN  Close64(s[1], s[2], m, n - Rest(n), Rest(n))

T1ha2AtOnce128(m, seed) ==
  LET n == m.n
      s == AbsorbAll(InitAB(seed, WNat(n)) \o InitCD(seed, WNat(n)), m, 0, Blocks(n))
  IN  Close128(s, m, n - Rest(n), Rest(n))

(* ------------------------------ streaming ------------------------------- *)
(* What a stream means, with no reference to pieces: the message's whole    *)
(* blocks are absorbed, then the rest followed by the 8-byte little-endian  *)
(* word (8 * total) xor 2^63 is, and the rest of that is closed.            *)
BytesLE(w) == << w[1] % 256, w[1] \div 256, w[2] % 256, w[2] \div 256,
                 w[3] % 256, w[3] \div 256, w[4] % 256, w[4] \div 256 >>
PadWord(total) == LET w == WShlSmall(total, 3) IN << w[1], w[2], w[3], w[4] ^^ 32768 >>

(* the rest of the stream (fewer than 32 bytes, a sequence) plus padding;    *)
(* s is the absorbed state, total the length as a word                       *)
StreamPadded(s, rest, total) ==
  LET all == rest \o BytesLE(PadWord(total))
      m   == [g |-> "x", s |-> 0, n |-> Len(all), b |-> all]
  IN  IF Len(all) >= 32 THEN << Absorb(s, BlockWords(m, 0)), m, 32, Len(all) - 32 >>
                        ELSE << s, m, 0, Len(all) >>
StreamClose64(s, rest, total) ==
  LET p == StreamPadded(s, rest, total)
      q == Squash(p[1])
  IN  Close64(q[1], q[2], p[2], p[3], p[4])
StreamClose128(s, rest, total) ==
  LET p == StreamPadded(s, rest, total)
  IN  Close128(p[1], p[2], p[3], p[4])

StreamInit(x, y) == InitAB(x, y) \o InitCD(x, y)
RestBytes(m) == [i \in 1..(m.n % 32) |-> MsgByte(m, m.n - (m.n % 32) + i - 1)]
T1ha2Stream64(m, x, y) ==
  StreamClose64(AbsorbAll(StreamInit(x, y), m, 0, m.n \div 32), RestBytes(m), WNat(m.n))
T1ha2Stream128(m, x, y) ==
  StreamClose128(AbsorbAll(StreamInit(x, y), m, 0, m.n \div 32), RestBytes(m), WNat(m.n))
=============================================================================
