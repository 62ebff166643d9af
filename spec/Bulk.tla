--------------------------------- MODULE Bulk --------------------------------
(* Absorbing many blocks of a periodic message.                             *)
(*                                                                          *)
(* Run(k, s, salt, off, n) is the state reached from s by absorbing the n   *)
(* blocks that lie at offset off of the message << "r", salt >>, with the   *)
(* block step of function kind k.  Its meaning is the fold below; TLC takes *)
(* the value from tlc2.module.Bulk (java/), which computes the same fold on *)
(* machine words, because lengths of gigabytes are out of reach otherwise.  *)
(* BulkCheck compares the two.                                              *)
LOCAL INSTANCE T1ha2
LOCAL INSTANCE T1ha1
LOCAL INSTANCE T1ha0
LOCAL INSTANCE Ia32Aes

Kinds == {"2", "1le", "1be", "0le", "0be", "a", "b"}
Size(k) == CASE k \in {"2", "1le", "1be"} -> 32
             [] k \in {"0le", "0be"}      -> 16
             [] k \in {"a", "b"}          -> 128
Step(k, s, m, o) ==
  CASE k = "2"   -> Absorb(s, BlockWords(m, o))
    [] k = "1le" -> T1ha1Block(s, "le", m, o)
    [] k = "1be" -> T1ha1Block(s, "be", m, o)
    [] k = "0le" -> T1ha0Block(s, "le", m, o)
    [] k = "0be" -> T1ha0Block(s, "be", m, o)
    [] k = "a"   -> BlockA(s, m, o)
    [] k = "b"   -> BlockB(s, m, o)

PureRun(k, s, salt, off, n) ==
  LET m == [g |-> "r", s |-> salt, n |-> 0, b |-> <<>>]
  IN  FoldLeft(LAMBDA st, o : Step(k, st, m, o), s, BlockOffs(off, Size(k), n))

Run(k, s, salt, off, n) == PureRun(k, s, salt, off, n)
Native == FALSE     \* TRUE when the Java class is in place
=============================================================================
