------------------------------- MODULE Published -----------------------------
(* Anchors the specification in the published reference values: the 81      *)
(* reference inputs and, for each hash function, the 81 values published    *)
(* with t1ha 2.1.  The values are kept here, in the specification, so that  *)
(* they do not follow a change of the code.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Api, Words, PublishedValues

Pattern == << 0, 1, 2, 3, 4, 5, 6, 7, 255, 127, 63, 31, 15, 8, 16, 32, 64, 128, 254, 252, 248, 240, 224, 192,
              253, 251, 247, 239, 223, 191, 85, 170, 11, 17, 19, 23, 29, 37, 42, 43,
              97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116,
              117, 118, 119, 120 >>

Ones64 == << 65535, 65535, 65535, 65535 >>
Bit(k) == [i \in 1..4 |-> IF k \div 16 = i - 1 THEN 2 ^ (k % 16) ELSE 0]
(* all ones shifted left by k < 16 *)
OnesShl(k) == << 65536 - 2 ^ k, 65535, 65535, 65535 >>

Cut(from, n) == [g |-> "x", s |-> 0, n |-> n, b |-> SubSeq(Pattern, from + 1, from + n)]

(* the k-th reference input, k in 1..81: << message, seed >> *)
Reference(k) ==
  CASE k = 1  -> << Cut(0, 0), W0 >>
    [] k = 2  -> << Cut(0, 0), Ones64 >>
    [] k = 3  -> << Cut(0, 64), W0 >>
    [] k \in 4..66  -> << Cut(0, k - 3), Bit(k - 4) >>
    [] k \in 67..73 -> << Cut(k - 66, 64 - (k - 66)), OnesShl(k - 66) >>
    [] k \in 74..81 -> << [g |-> "c", s |-> k - 74, n |-> 128 + 17 * (k - 74), b |-> <<>>], OnesShl(7) >>

(* functions with published values; stream functions take the seed twice *)
PublishedFns == {"2a64", "2a128", "2s64", "2s128", "1le", "1be", "0le", "0be", "aes", "avx", "avx2"}

VARIABLES pubFn, pubIdx
Init == pubFn \in PublishedFns /\ pubIdx = 1
Next == pubIdx < 81 /\ pubIdx' = pubIdx + 1 /\ UNCHANGED pubFn
Spec == Init /\ [][Next]_<< pubFn, pubIdx >>
AgreesWithPublished ==
  LET ref == Reference(pubIdx) IN Value(pubFn, ref[1], ref[2], ref[2])[1] = PublishedValue(pubFn)[pubIdx]
Visited == TLCGet("stats").distinct = 81 * Cardinality(PublishedFns)
=============================================================================
