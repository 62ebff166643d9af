-------------------------------- MODULE Totals -------------------------------
(* The length a stream accounts for, at a reduced width.  Pieces are at most *)
(* one machine size (SizeBits) long; the total is kept in TotalBits bits and *)
(* enters the padding as the number of bits, 8 times the total, modulo the   *)
(* word.  On a 64-bit machine SizeBits = TotalBits, on a 32-bit one it is    *)
(* half of it.  Counter = "size" keeps the total in a machine size instead,  *)
(* "shift" scales it in one: both are told apart from the definition.        *)
EXTENDS Integers, IOUtils

TotalBits == 6
SizeBits == IF IOEnv.MACHINE = "small" THEN 3 ELSE 6
Counter == IOEnv.COUNTER
MaxSum == 150                       \* ghost: bytes really fed
Wrap(v, bits) == v % (2 ^ bits)
Pad(total) == Wrap(8 * Wrap(total, TotalBits), TotalBits + 3)   \* no bit of the count is lost but the top ones

VARIABLES fed, total
vars == << fed, total >>
Init == fed = 0 /\ total = 0
Feed == \E n \in 0..(2 ^ SizeBits) - 1 :
          /\ fed + n <= MaxSum
          /\ fed' = fed + n
          /\ total' = IF Counter = "size" THEN Wrap(total + n, SizeBits) ELSE Wrap(total + n, TotalBits)
Spec == Init /\ [][Feed]_vars

PadOf(t) == IF Counter = "shift" THEN Wrap(8 * Wrap(t, SizeBits), SizeBits) ELSE Pad(t)
LengthCounts == PadOf(total) = Pad(fed)
=============================================================================
