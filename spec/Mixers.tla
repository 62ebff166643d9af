-------------------------------- MODULE Mixers -------------------------------
(* The constants and mixing steps shared by the whole t1ha family.          *)
EXTENDS Words

Prime0 == << 51883, 33650, 48909, 60569 >>   \* EC99BF0D8372CAAB
Prime1 == << 61241,  3804, 20457, 33347 >>   \* 82434FE90EDCEF39
Prime2 == << 48715, 40295, 28089, 54512 >>   \* D4F06DB99D67BE4B
Prime3 == << 38257, 11374, 44226, 48540 >>   \* BD9CACC22C6E9571
Prime4 == << 58283, 53283, 64244, 39942 >>   \* 9C06FAF4D023E3AB
Prime5 == << 62277, 33828, 29258, 49248 >>   \* C060724A8424F345
Prime6 == << 44081, 58282, 62778, 52058 >>   \* CB5AF53AE3AAAC31

(* xor of the halves of the full product *)
Mux64(v, p) == LET m == WMul(v, p) IN WXor(m[1], m[2])

(* x ^= low((y + v) * p);  y += high((y + v) * p)      ->  <<x', y'>> *)
Mixup64(x, y, v, p) == LET m == WMul(WAdd(y, v), p)
                       IN  << WXor(x, m[1]), WAdd(y, m[2]) >>

Final64(a, b) == LET x == WMulLo(WAdd(a, WRotr(b, 41)), Prime0)
                     y == WMulLo(WAdd(WRotr(a, 23), b), Prime6)
                 IN  Mux64(WXor(x, y), Prime5)

(* The closing steps common to t1ha2 (64-bit) and the AES variants: up to   *)
(* three whole words, then the last 1..8 bytes, alternately into a and b.   *)
(* Wd(k) is the k-th whole word of the rest, Tl its last 1..8 bytes, r the  *)
(* number of bytes left, 0..32.                                             *)
TailAB(a0, b0, r, Wd(_), Tl) ==
  LET n1 == IF r > 24 THEN 1 ELSE 0                    \* whole words taken so far
      n2 == IF r > 16 THEN n1 + 1 ELSE n1
      n3 == IF r > 8  THEN n2 + 1 ELSE n2
      s1 == IF r > 24 THEN Mixup64(a0, b0, Wd(0), Prime4) ELSE << a0, b0 >>
      s2 == IF r > 16 THEN LET m == Mixup64(s1[2], s1[1], Wd(n1), Prime3)
                           IN  << m[2], m[1] >> ELSE s1
      s3 == IF r > 8  THEN Mixup64(s2[1], s2[2], Wd(n2), Prime2) ELSE s2
      s4 == IF r > 0  THEN LET m == Mixup64(s3[2], s3[1], Tl, Prime1)
                           IN  << m[2], m[1] >> ELSE s3
  IN  s4
=============================================================================
