-------------------------------- MODULE Ia32Aes ------------------------------
(* The AES-NI variants of t1ha0: kind "a" (without AVX2) and "b" (AVX2).    *)
EXTENDS Mixers, Messages, Aes, SequencesExt

(* 128-bit registers: eight limbs, low word first *)
X2(lo, hi)  == lo \o hi
XLo(x) == << x[1], x[2], x[3], x[4] >>
XHi(x) == << x[5], x[6], x[7], x[8] >>
XXor(x, y) == X2(WXor(XLo(x), XLo(y)), WXor(XHi(x), XHi(y)))
XAdd(x, y) == X2(WAdd(XLo(x), XLo(y)), WAdd(XHi(x), XHi(y)))     \* two 64-bit lanes
XSub(x, y) == X2(WSub(XLo(x), XLo(y)), WSub(XHi(x), XHi(y)))
XLoad(m, o) == X2(LoadLE(m, o, 8), LoadLE(m, o + 8, 8))

(* a pair of 16-byte words into << x, y >> *)
Pair(s, m, o) ==
  LET v0y == XAdd(s[2], XLoad(m, o))
      v1x == XSub(s[1], XLoad(m, o + 16))
  IN  << AesDec(s[1], v0y), AesDec(s[2], v1x) >>

Fold(s) == XAdd(AesDec(s[1], AesEnc(s[2], s[1])), s[2])

(* kind a: 128-byte blocks, then 64, 32 and 16 bytes as the length has them *)
BlockA(s, m, o) ==
  LET x == s[1]  y == s[2]
      v0 == XLoad(m, o)       v1 == XLoad(m, o + 16)  v2 == XLoad(m, o + 32)  v3 == XLoad(m, o + 48)
      v4 == XLoad(m, o + 64)  v5 == XLoad(m, o + 80)  v6 == XLoad(m, o + 96)  v7 == XLoad(m, o + 112)
      v0y    == AesEnc(v0, y)
      v2x6   == AesEnc(v2, XXor(x, v6))
      v4567  == XXor(AesEnc(v4, v5), XAdd(v6, v7))
      v0y71  == AesDec(XSub(v7, v0y), v1)
      v2x63  == AesEnc(v2x6, v3)
  IN  << AesEnc(v4567, XAdd(x, y)), AesEnc(v2x63, XXor(v0y71, v5)) >>

StartA(L, seed) == LET x0 == X2(L, seed) IN << x0, AesEnc(x0, X2(Prime6, Prime5)) >>
(* the r < 128 bytes of m left at offset o, the last r % 16 of which are not taken here *)
FinishA(s1, m, o1, r) ==
  LET h64 == r >= 64   h32 == (r % 64) >= 32   h16 == (r % 32) >= 16
      s2 == IF h64 THEN Pair(Pair(s1, m, o1), m, o1 + 32) ELSE s1
      o2 == IF h64 THEN o1 + 64 ELSE o1
      s3 == IF h32 THEN Pair(s2, m, o2) ELSE s2
      o3 == IF h32 THEN o2 + 32 ELSE o2
      s4 == IF h16 THEN << AesDec(s3[1], XLoad(m, o3)), XAdd(s3[1], s3[2]) >> ELSE s3
  IN  Fold(s4)
LongA(m, seed) ==
  LET nb == m.n \div 128
  IN  FinishA(FoldLeft(LAMBDA st, off : BlockA(st, m, off), StartA(WNat(m.n), seed), BlockOffs(0, 128, nb)),
              m, nb * 128, m.n % 128)

(* kind b: an odd 16 bytes first, then 128-byte blocks while 8 words are     *)
(* left, then pairs                                                          *)
BlockB(s, m, o) ==
  LET x == s[1]  y == s[2]  salt == s[3]
      t0 == AesEnc(XLoad(m, o), salt)
      t7 == FoldLeft(LAMBDA t, off : AesDec(t, XLoad(m, off)), t0, BlockOffs(o + 16, 16, 7))
  IN  << XAdd(y, x), AesEnc(x, t7), XAdd(salt, X2(Prime6, Prime5)) >>

OddB(r) == (r % 32) >= 16
(* m: the message, or at least its first 16 bytes; r: length modulo 128 *)
StartB(L, seed, m, r) ==
  LET x0 == X2(L, seed)
      y0 == AesEnc(x0, X2(Prime1, Prime0))
      x1 == IF OddB(r) THEN XAdd(x0, XLoad(m, 0)) ELSE x0
      y1 == IF OddB(r) THEN AesEnc(x1, y0) ELSE y0
  IN  << x1, y1, y1 >>
(* the pairs among the r < 128 bytes of m left at offset o *)
FinishB(s2, m, o2, r) ==
  Fold(FoldLeft(LAMBDA st, off : Pair(st, m, off), << s2[1], s2[2] >>, BlockOffs(o2, 32, (r - (r % 16)) \div 32)))
LongB(m, seed) ==
  LET n  == m.n
      o1 == IF OddB(n) THEN 16 ELSE 0
      nb == (n - (n % 16) - o1) \div 128
      o2 == o1 + 128 * nb
  IN  FinishB(FoldLeft(LAMBDA st, off : BlockB(st, m, off), StartB(WNat(n), seed, m, n % 128), BlockOffs(o1, 128, nb)),
              m, o2, n - o2)

(* the r <= 32 bytes of m left at offset o *)
AesClose(ab, m, o, r) ==
  LET t == TailAB(ab[1], ab[2], r, LAMBDA k : LoadLE(m, o + 8 * k, 8),
                  LoadLE(m, LastOff(o, r, 8), LastSize(r, 8)))
  IN  Final64(t[1], t[2])

Ia32Aes(kind, m, seed) ==
  LET n == m.n
      x == IF kind = "a" THEN LongA(m, seed) ELSE LongB(m, seed)
      ab == IF n > 32 THEN << XLo(x), XHi(x) >> ELSE << seed, WNat(n) >>
      r == IF n > 32 THEN n % 16 ELSE n
  IN  AesClose(ab, m, n - r, r)
=============================================================================
