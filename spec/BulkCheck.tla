------------------------------- MODULE BulkCheck -----------------------------
(* The native fold is the fold: compared on all kinds, from pseudo-random   *)
(* states, over runs that wrap around the period and runs that do not.      *)
(* (A variable named like a parameter of the modules above would keep TLC   *)
(* from computing their tables once.)                                       *)
EXTENDS Integers, Sequences, TLC, Bulk

VARIABLES vKind, vOff, vCount, vSeed, verdict
vars == << vKind, vOff, vCount, vSeed, verdict >>

Offs == {0, 16, 1, 1048576 - 112}
Ns == {0, 1, 2, 7, 130}

Rnd(i) == (((i * 7919 + vSeed * 104729 + 12345) % 32749) * 25173 + vSeed * 13849) % 65536
LimbSeq(base, k) == [j \in 1..k |-> Rnd(base * 16 + j)]
State(k) == CASE k \in {"2", "1le", "1be"} -> << LimbSeq(1, 4), LimbSeq(2, 4), LimbSeq(3, 4), LimbSeq(4, 4) >>
              [] k \in {"0le", "0be"} -> << LimbSeq(1, 2), LimbSeq(2, 2), LimbSeq(3, 2), LimbSeq(4, 2) >>
              [] k = "a" -> << LimbSeq(1, 8), LimbSeq(2, 8) >>
              [] k = "b" -> << LimbSeq(1, 8), LimbSeq(2, 8), LimbSeq(3, 8) >>

Init == vKind \in Kinds /\ vOff \in Offs /\ vCount \in Ns /\ vSeed \in {1, 7, 1001} /\ verdict = "none"
Agree == Run(vKind, State(vKind), vSeed, vOff, vCount) = PureRun(vKind, State(vKind), vSeed, vOff, vCount)
Compare == /\ verdict = "none" /\ Agree    /\ verdict' = "same"      /\ UNCHANGED << vKind, vOff, vCount, vSeed >>
Differ  == /\ verdict = "none" /\ ~ Agree  /\ verdict' = "different" /\ UNCHANGED << vKind, vOff, vCount, vSeed >>
Spec == Init /\ [][Compare \/ Differ]_vars

Same == verdict # "different"
ASSUME Native
=============================================================================
