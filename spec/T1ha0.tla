--------------------------------- MODULE T1ha0 -------------------------------
(* The 32-bit variants of t1ha0, in word order e.                           *)
EXTENDS Mixers, Messages, SequencesExt

P32_0 == << 33385, 37591 >>   \* 92D78269
P32_1 == << 18229, 51867 >>   \* CA9B4735
P32_2 == << 41411, 42155 >>   \* A4ABA1C3
P32_3 == << 38979, 63049 >>   \* F6499843
P32_4 == << 64865, 34544 >>   \* 86F0FD61
P32_5 == << 42747, 51757 >>   \* CA2DA6FB
P32_6 == << 13685, 50363 >>   \* C4BB3575

Mixup32(x, y, v, p) == LET m == DMul(DAdd(y, v), p)
                       IN  << DXor(x, m[1]), DAdd(y, m[2]) >>

Final32(a, b) ==
  LET lo == DXor(b, DRotr(a, 13))
      l0 == << lo[1], lo[2], a[1], a[2] >>
      l1 == WMulLo(l0, Prime0)
      l2 == WMulLo(WXor(l1, WShr(l1, 41)), Prime4)
  IN  WMulLo(WXor(l2, WShr(l2, 47)), Prime6)

Load32(e, m, o, k) == Lo32(Load(e, m, o, k))

T1ha0Block(s, e, m, o) ==
  LET a == s[1]  b == s[2]  c == s[3]  d == s[4]
      w0 == Load32(e, m, o, 4)      w1 == Load32(e, m, o + 4, 4)
      w2 == Load32(e, m, o + 8, 4)  w3 == Load32(e, m, o + 12, 4)
      d13 == DAdd(w1, DRotr(DAdd(w3, d), 17))
      c02 == DXor(w0, DRotr(DAdd(w2, c), 11))
  IN  << DMulLo(DXor(d13, w2), P32_0),
         DMulLo(DAdd(c02, w3), P32_1),
         DXor(c, DRotr(DAdd(b, w1), 7)),
         DXor(d, DRotr(DAdd(a, w0), 3)) >>

(* L: the low 32 bits of the length *)
T1ha0Start(L, seed) ==
  LET a0 == DAdd(DRotr(L, 17), Lo32(seed))
      b0 == DXor(L, Hi32(seed))
  IN  << a0, b0, DNot(a0), DRotr(b0, 5) >>
T1ha0Squash(t) ==
  LET c == DAdd(t[3], t[1])
      d == DAdd(t[4], t[2])
  IN  << DXor(t[1], DMulLo(DAdd(DRotr(c, 16), d), P32_6)),
         DXor(t[2], DMulLo(DAdd(c, DRotr(d, 16)), P32_5)) >>

(* the r <= 16 bytes of m left at offset o *)
T1ha0Close(s, e, m, o, r) ==
  LET n1 == IF r > 12 THEN 1 ELSE 0
      n2 == IF r > 8 THEN n1 + 1 ELSE n1
      Wd(k) == Load32(e, m, o + 4 * k, 4)
      s1 == IF r > 12 THEN Mixup32(s[1], s[2], Wd(0), P32_4) ELSE << s[1], s[2] >>    \* a, b
      s2 == IF r > 8 THEN Mixup32(s1[2], s1[1], Wd(n1), P32_3) ELSE << s1[2], s1[1] >> \* b, a
      s3 == IF r > 4 THEN Mixup32(s2[2], s2[1], Wd(n2), P32_2) ELSE << s2[2], s2[1] >> \* a, b
      s4 == IF r > 0 THEN Mixup32(s3[2], s3[1], Load32(e, m, LastOff(o, r, 4), LastSize(r, 4)), P32_1)
                     ELSE << s3[2], s3[1] >>                                           \* b, a
  IN  Final32(s4[2], s4[1])

(* the length enters as its low 32 bits *)
T1ha0(e, m, seed) ==
  LET n == m.n
      z == T1ha0Start(Lo32(WNat(n)), seed)
      s == IF n > 16
             THEN T1ha0Squash(FoldLeft(LAMBDA st, off : T1ha0Block(st, e, m, off), z, BlockOffs(0, 16, n \div 16)))
             ELSE z
      r == IF n > 16 THEN n % 16 ELSE n
  IN  T1ha0Close(s, e, m, n - r, r)
=============================================================================
