-------------------------------- MODULE Words --------------------------------
(* Machine words for the t1ha specification.                                *)
(*                                                                          *)
(* TLC integers are 32-bit, so a 64-bit word is the tuple <<l1,l2,l3,l4>>   *)
(* of its 16-bit limbs, least significant first, and a 32-bit word the      *)
(* tuple <<l1,l2>>.  Every intermediate sum below stays under 2^31.         *)
EXTENDS Integers, Sequences, Bitwise

B16 == 65536
Limb == 0..65535

(* ------------------------------ 64-bit words ---------------------------- *)
W0 == <<0, 0, 0, 0>>

WXor(x, y) == << x[1] ^^ y[1], x[2] ^^ y[2], x[3] ^^ y[3], x[4] ^^ y[4] >>

WNot(x) == << 65535 - x[1], 65535 - x[2], 65535 - x[3], 65535 - x[4] >>

WAdd(x, y) ==
  LET s1 == x[1] + y[1]
      s2 == x[2] + y[2] + (s1 \div B16)
      s3 == x[3] + y[3] + (s2 \div B16)
      s4 == x[4] + y[4] + (s3 \div B16)
  IN  << s1 % B16, s2 % B16, s3 % B16, s4 % B16 >>

WNeg(x) == WAdd(WNot(x), <<1, 0, 0, 0>>)
WSub(x, y) == WAdd(x, WNeg(y))

(* rotate right by n bits, 0 <= n < 64 *)
WRotr(x, n) ==
  LET q  == n \div 16
      r  == n % 16
      lo == 2 ^ r
      hi == 2 ^ (16 - r)
      L(k) == (x[((k + q) % 4) + 1] \div lo) + (x[((k + q + 1) % 4) + 1] % lo) * hi
  IN  << L(0), L(1), L(2), L(3) >>

(* logical shift right by n bits, 0 <= n < 64 *)
WShr(x, n) ==
  LET q  == n \div 16
      r  == n % 16
      lo == 2 ^ r
      hi == 2 ^ (16 - r)
      At(k) == IF k <= 4 THEN x[k] ELSE 0
      L(k) == (At(k + q) \div lo) + (At(k + q + 1) % lo) * hi
  IN  << L(1), L(2), L(3), L(4) >>

(* shift left by n bits, 0 <= n < 16 *)
WShlSmall(x, n) ==
  LET m == 2 ^ n
      s1 == x[1] * m
      s2 == x[2] * m + (s1 \div B16)
      s3 == x[3] * m + (s2 \div B16)
      s4 == x[4] * m + (s3 \div B16)
  IN  IF n = 0 THEN x ELSE << s1 % B16, s2 % B16, s3 % B16, s4 % B16 >>

(* natural number below 2^31 as a word *)
WNat(n) == << n % B16, n \div B16, 0, 0 >>

(* the full 128-bit product <<low word, high word>> of a and p.             *)
(* p is split in even and odd bytes so that no column sum exceeds 2^27.     *)
WMul(a, p) ==
  LET a1 == a[1]  a2 == a[2]  a3 == a[3]  a4 == a[4]
      e1 == p[1] % 256     e2 == p[2] % 256     e3 == p[3] % 256     e4 == p[4] % 256
      o1 == p[1] \div 256  o2 == p[2] \div 256  o3 == p[3] \div 256  o4 == p[4] \div 256
      q1 == a1*o1
      q2 == a1*o2 + a2*o1
      q3 == a1*o3 + a2*o2 + a3*o1
      q4 == a1*o4 + a2*o3 + a3*o2 + a4*o1
      q5 == a2*o4 + a3*o3 + a4*o2
      q6 == a3*o4 + a4*o3
      q7 == a4*o4
      c1 == a1*e1 + (q1 % 256)*256
      c2 == a1*e2 + a2*e1 + (q2 % 256)*256 + (q1 \div 256) + (c1 \div B16)
      c3 == a1*e3 + a2*e2 + a3*e1 + (q3 % 256)*256 + (q2 \div 256) + (c2 \div B16)
      c4 == a1*e4 + a2*e3 + a3*e2 + a4*e1 + (q4 % 256)*256 + (q3 \div 256) + (c3 \div B16)
      c5 == a2*e4 + a3*e3 + a4*e2 + (q5 % 256)*256 + (q4 \div 256) + (c4 \div B16)
      c6 == a3*e4 + a4*e3 + (q6 % 256)*256 + (q5 \div 256) + (c5 \div B16)
      c7 == a4*e4 + (q7 % 256)*256 + (q6 \div 256) + (c6 \div B16)
      c8 == (q7 \div 256) + (c7 \div B16)
  IN  << << c1 % B16, c2 % B16, c3 % B16, c4 % B16 >>,
         << c5 % B16, c6 % B16, c7 % B16, c8 >> >>

(* the low 64 bits of the product *)
WMulLo(a, p) ==
  LET a1 == a[1]  a2 == a[2]  a3 == a[3]  a4 == a[4]
      e1 == p[1] % 256     e2 == p[2] % 256     e3 == p[3] % 256     e4 == p[4] % 256
      o1 == p[1] \div 256  o2 == p[2] \div 256  o3 == p[3] \div 256  o4 == p[4] \div 256
      q1 == a1*o1
      q2 == a1*o2 + a2*o1
      q3 == a1*o3 + a2*o2 + a3*o1
      q4 == a1*o4 + a2*o3 + a3*o2 + a4*o1
      c1 == a1*e1 + (q1 % 256)*256
      c2 == a1*e2 + a2*e1 + (q2 % 256)*256 + (q1 \div 256) + (c1 \div B16)
      c3 == a1*e3 + a2*e2 + a3*e1 + (q3 % 256)*256 + (q2 \div 256) + (c2 \div B16)
      c4 == a1*e4 + a2*e3 + a3*e2 + a4*e1 + (q4 % 256)*256 + (q3 \div 256) + (c3 \div B16)
  IN  << c1 % B16, c2 % B16, c3 % B16, c4 % B16 >>

(* ------------------------------ 32-bit words ---------------------------- *)
D0 == <<0, 0>>
DXor(x, y) == << x[1] ^^ y[1], x[2] ^^ y[2] >>
DNot(x) == << 65535 - x[1], 65535 - x[2] >>
DAdd(x, y) ==
  LET s1 == x[1] + y[1]
      s2 == x[2] + y[2] + (s1 \div B16)
  IN  << s1 % B16, s2 % B16 >>
DRotr(x, n) ==
  LET q  == n \div 16
      r  == n % 16
      lo == 2 ^ r
      hi == 2 ^ (16 - r)
      L(k) == (x[((k + q) % 2) + 1] \div lo) + (x[((k + q + 1) % 2) + 1] % lo) * hi
  IN  << L(0), L(1) >>
(* full 64-bit product of 32-bit words, as <<low 32, high 32>> *)
DMul(a, p) ==
  LET w == WMulLo(<<a[1], a[2], 0, 0>>, <<p[1], p[2], 0, 0>>)
  IN  << <<w[1], w[2]>>, <<w[3], w[4]>> >>
DMulLo(a, p) == DMul(a, p)[1]
Lo32(w) == << w[1], w[2] >>
Hi32(w) == << w[3], w[4] >>
=============================================================================
