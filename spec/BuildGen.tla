------------------------------- MODULE BuildGen ------------------------------
(* Writes every sensible x86 configuration of Build with the names it must  *)
(* offer and those it must not.  Checks on the way that the configurations  *)
(* offer what the documentation promises.                                   *)
EXTENDS Build, SequencesExt, Json, IOUtils, TLC
X86Builds == {b \in [word : {32, 64}, be : {FALSE}, dis : SUBSET {0, 1, 2}, x86 : {TRUE}, aes : BOOLEAN, rt : BOOLEAN,
                     ifunc : BOOLEAN, def : BOOLEAN] : Sensible(b)}
ASSUME \A b \in X86Builds :
  /\ Names(b) \subseteq AllNames
  /\ \A k \in 0..2 : (k \in b.dis) => \A n \in Names(b) : n \notin (IF k = 2 THEN T2Names \cup T2Checks
                                                        ELSE IF k = 1 THEN T1Names \cup T1Checks
                                                        ELSE T0Names(b) \cup T0Checks(b))
  \* the fallback is always an enabled function, at the machine's word size
  /\ Enabled(b, 0) => /\ (b.word = 32 => Portable(b) = "0le")
                      /\ (b.word = 64 => Portable(b) = IF Enabled(b, 1) THEN "1le" ELSE IF Enabled(b, 2) THEN "2a64" ELSE "0le")
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[build |-> [b EXCEPT !.dis = SetToSeq(@)], names |-> SetToSeq(Names(b)),
                                             absent |-> SetToSeq(AllNames \ Names(b)),
                                             exported |-> SetToSeq(Exported(b))] : b \in X86Builds}))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
