---------------------------------- MODULE Aes --------------------------------
(* One AES round (FIPS-197), forward and inverse, on a 128-bit register     *)
(* held as eight 16-bit limbs, least significant first: byte i of the       *)
(* register is byte i%2 of limb i\div 2 + 1, row i%4 and column i\div 4 of  *)
(* the AES state.  The S-box is computed from its definition in GF(2^8).    *)
EXTENDS Words, FiniteSets

BXor(x, y) == x ^^ y
XTime(x) == IF x < 128 THEN 2 * x ELSE BXor(2 * x - 256, 27)
RECURSIVE GMul(_, _)
GMul(x, y) == IF y = 0 THEN 0
              ELSE BXor(IF y % 2 = 1 THEN x ELSE 0, GMul(XTime(x), y \div 2))
Byte == 0..255

(* logarithms to base 3 give the inverses *)
RECURSIVE Pow3(_)
Pow3(k) == IF k = 0 THEN 1 ELSE GMul(Pow3(k - 1), 3)
RECURSIVE ExpSeq(_, _, _)
ExpSeq(k, cur, acc) == IF k = 255 THEN acc ELSE ExpSeq(k + 1, GMul(cur, 3), Append(acc, cur))
Exp3 == ExpSeq(0, 1, <<>>)                       \* Exp3[k+1] = 3^k
Log3 == [x \in 1..255 |-> (CHOOSE k \in 1..255 : Exp3[k] = x) - 1]
GInv(x) == IF x = 0 THEN 0 ELSE Exp3[((255 - Log3[x]) % 255) + 1]

Rotl8(x, n) == ((x * 2^n) % 256) + ((x * 2^n) \div 256)
SBox == [x \in Byte |-> LET i == GInv(x)
                        IN  ((((i ^^ Rotl8(i, 1)) ^^ Rotl8(i, 2)) ^^ Rotl8(i, 3)) ^^ Rotl8(i, 4)) ^^ 99]
InvSBox == [y \in Byte |-> CHOOSE x \in Byte : SBox[x] = y]

(* contribution of the byte x in row r to its MixColumns column, << limb, limb >> *)
Col(b0, b1, b2, b3) == << b0 + 256 * b1, b2 + 256 * b3 >>
E0 == [x \in Byte |-> LET s == SBox[x] IN Col(GMul(s, 2), s, s, GMul(s, 3))]
E1 == [x \in Byte |-> LET s == SBox[x] IN Col(GMul(s, 3), GMul(s, 2), s, s)]
E2 == [x \in Byte |-> LET s == SBox[x] IN Col(s, GMul(s, 3), GMul(s, 2), s)]
E3 == [x \in Byte |-> LET s == SBox[x] IN Col(s, s, GMul(s, 3), GMul(s, 2))]
I0 == [x \in Byte |-> LET s == InvSBox[x] IN Col(GMul(s, 14), GMul(s, 9), GMul(s, 13), GMul(s, 11))]
I1 == [x \in Byte |-> LET s == InvSBox[x] IN Col(GMul(s, 11), GMul(s, 14), GMul(s, 9), GMul(s, 13))]
I2 == [x \in Byte |-> LET s == InvSBox[x] IN Col(GMul(s, 13), GMul(s, 11), GMul(s, 14), GMul(s, 9))]
I3 == [x \in Byte |-> LET s == InvSBox[x] IN Col(GMul(s, 9), GMul(s, 13), GMul(s, 11), GMul(s, 14))]

(* byte in row r, column c (taken mod 4) *)
ByteAt(x, r, c) == LET l == x[2 * (c % 4) + (r \div 2) + 1]
                   IN  IF r % 2 = 0 THEN l % 256 ELSE l \div 256

AesEnc(x, k) ==
  LET C(c) == LET p == E0[ByteAt(x, 0, c)]      q == E1[ByteAt(x, 1, c + 1)]
                  r == E2[ByteAt(x, 2, c + 2)]  s == E3[ByteAt(x, 3, c + 3)]
              IN  << ((p[1] ^^ q[1]) ^^ (r[1] ^^ s[1])) ^^ k[2 * c + 1],
                     ((p[2] ^^ q[2]) ^^ (r[2] ^^ s[2])) ^^ k[2 * c + 2] >>
      c0 == C(0)  c1 == C(1)  c2 == C(2)  c3 == C(3)
  IN  << c0[1], c0[2], c1[1], c1[2], c2[1], c2[2], c3[1], c3[2] >>

AesDec(x, k) ==
  LET C(c) == LET p == I0[ByteAt(x, 0, c)]      q == I1[ByteAt(x, 1, c + 3)]
                  r == I2[ByteAt(x, 2, c + 2)]  s == I3[ByteAt(x, 3, c + 1)]
              IN  << ((p[1] ^^ q[1]) ^^ (r[1] ^^ s[1])) ^^ k[2 * c + 1],
                     ((p[2] ^^ q[2]) ^^ (r[2] ^^ s[2])) ^^ k[2 * c + 2] >>
      c0 == C(0)  c1 == C(1)  c2 == C(2)  c3 == C(3)
  IN  << c0[1], c0[2], c1[1], c1[2], c2[1], c2[2], c3[1], c3[2] >>

(* FIPS-197: the two rounds invert each other's substitution and mixing *)
AesSane == /\ SBox[0] = 99 /\ SBox[83] = 237 /\ InvSBox[237] = 83
           /\ Cardinality({SBox[x] : x \in Byte}) = 256
=============================================================================
