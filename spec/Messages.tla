------------------------------- MODULE Messages ------------------------------
(* Messages (byte strings) and the words read from them.                    *)
(*                                                                          *)
(* A message is a record [g, s, n, b]: n is its length in bytes (< 2^31);   *)
(* g names a generator and s its salt, or g = "x" and b lists the bytes.    *)
(* The C drivers implement the same generators, so that long messages need  *)
(* not be written out in the traces.                                        *)
EXTENDS Words

RECURSIVE GenByte(_, _, _)
GenByte(g, s, i) ==
  CASE g = "z" -> 0
    [] g = "f" -> 255
    [] g = "c" -> (i + s) % 256
    [] g = "h" -> IF (i % 64) = (s % 64) THEN 128 ELSE 0
    [] g = "r" -> GenByte("p", s, i % 1048576)      \* periodic
    [] g = "p" -> LET x == (i + s * 131) % 32749
                      y == (i \div 32749) % 1021
                  IN  (((x * x) % 65521) + x * 167 + y * 7919 + (x \div 256) * 31) % 256

MsgByte(m, i) == IF m.g = "x" THEN m.b[i + 1] ELSE GenByte(m.g, m.s, i)

(* the k-byte (1..8) little-/big-endian integer at offset o, as a word *)
LoadLE(m, o, k) ==
  LET B(i) == IF i < k THEN MsgByte(m, o + i) ELSE 0
  IN  << B(0) + 256 * B(1), B(2) + 256 * B(3), B(4) + 256 * B(5), B(6) + 256 * B(7) >>

LoadBE(m, o, k) ==
  LET B(i) == IF i < k THEN MsgByte(m, o + (k - 1 - i)) ELSE 0
  IN  << B(0) + 256 * B(1), B(2) + 256 * B(3), B(4) + 256 * B(5), B(6) + 256 * B(7) >>

Load(e, m, o, k) == IF e = "le" THEN LoadLE(m, o, k) ELSE LoadBE(m, o, k)

(* offsets of n consecutive blocks of the given size, starting at o *)
BlockOffs(o, size, n) == [i \in 1..n |-> o + (i - 1) * size]

(* offset and size of the last 1..8 bytes among the r bytes left at offset o *)
LastOff(o, r, w)  == o + w * ((r - 1) \div w)
LastSize(r, w)    == ((r - 1) % w) + 1
=============================================================================
