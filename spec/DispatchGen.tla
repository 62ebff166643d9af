----------------------------- MODULE DispatchGen -----------------------------
(* Writes every processor of Cpu with its CPUID table, for the mocked runs. *)
EXTENDS Build, SequencesExt, Json, IOUtils, TLC
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[cpu |-> c, table |-> Table(c)] : c \in Cpus}))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
