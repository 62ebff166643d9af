--------------------------------- MODULE T1ha1 -------------------------------
(* t1ha1, in little-endian ("le") and big-endian ("be") word order e.       *)
EXTENDS Mixers, Messages, SequencesExt

T1ha1Block(s, e, m, o) ==
  LET a == s[1]  b == s[2]  c == s[3]  d == s[4]
      w0 == Load(e, m, o, 8)       w1 == Load(e, m, o + 8, 8)
      w2 == Load(e, m, o + 16, 8)  w3 == Load(e, m, o + 24, 8)
      d02 == WXor(w0, WRotr(WAdd(w2, d), 17))
      c13 == WXor(w1, WRotr(WAdd(w3, c), 17))
  IN  << WXor(a, WMulLo(WAdd(d02, w3), Prime1)),
         WXor(b, WMulLo(WAdd(c13, w2), Prime0)),
         WAdd(c, WXor(a, WRotr(w0, 41))),
         WSub(d, WXor(b, WRotr(w1, 31))) >>

WeakAvalanche(a, b) ==
  LET v == WMulLo(WXor(a, b), Prime0)
  IN  WAdd(Mux64(WRotr(WAdd(a, b), 17), Prime4), WXor(v, WRotr(v, 41)))

T1ha1Start(L, seed) == << seed, L, WAdd(WRotr(L, 17), seed), WXor(L, WRotr(seed, 17)) >>
T1ha1Squash(t) == << WXor(t[1], WMulLo(WAdd(WRotr(t[3], 17), t[4]), Prime6)),
                     WXor(t[2], WMulLo(WAdd(t[3], WRotr(t[4], 17)), Prime5)) >>

(* the r <= 32 bytes of m left at offset o *)
T1ha1Close(s, e, m, o, r) ==
  LET n1 == IF r > 24 THEN 1 ELSE 0
      n2 == IF r > 16 THEN n1 + 1 ELSE n1
      Wd(k) == Load(e, m, o + 8 * k, 8)
      b1 == IF r > 24 THEN WAdd(s[2], Mux64(Wd(0), Prime4)) ELSE s[2]
      a1 == IF r > 16 THEN WAdd(s[1], Mux64(Wd(n1), Prime3)) ELSE s[1]
      b2 == IF r > 8  THEN WAdd(b1, Mux64(Wd(n2), Prime2)) ELSE b1
      a2 == IF r > 0  THEN WAdd(a1, Mux64(Load(e, m, LastOff(o, r, 8), LastSize(r, 8)), Prime1)) ELSE a1
  IN  WeakAvalanche(a2, b2)

T1ha1(e, m, seed) ==
  LET n == m.n
      L == WNat(n)
      s == IF n > 32
             THEN T1ha1Squash(FoldLeft(LAMBDA st, off : T1ha1Block(st, e, m, off),
                                       T1ha1Start(L, seed), BlockOffs(0, 32, n \div 32)))
             ELSE << seed, L >>
      r == IF n > 32 THEN n % 32 ELSE n
  IN  T1ha1Close(s, e, m, n - r, r)
=============================================================================
