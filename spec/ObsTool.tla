------------------------------- MODULE ObsTool -------------------------------
(* Validates what became of the library with other toolchains.  Records:     *)
(*  [k = "row", id, row: a build; built: it compiled and linked;             *)
(*   self: what all self-checks together returned]                           *)
(*  [k = "fact", id, p: a platform, q: how it is asked, f: the facts the     *)
(*   headers come to]                                                        *)
(*  [k = "code", id, ok: whether the sources, or a user of the header,        *)
(*   compile for a platform]                                                 *)
EXTENDS Toolchain, Json, IOUtils
Raw == ndJsonDeserialize(IOEnv.OBS)
N == Len(Raw)
Pairs == IOEnv.PAIRS = "1"

Conforms(o) ==
  CASE o.k = "row"  -> o.row \in Rows /\ o.built /\ o.self = 0
    [] o.k = "fact" -> Sound(o.p, [o.q EXCEPT !.dis = {@[i] : i \in 1..Len(@)}], o.f)
    [] o.k = "code" -> o.ok
    [] OTHER -> FALSE

(* what was tried is worth its name *)
Tried == {Raw[i].row : i \in {j \in 1..N : Raw[j].k = "row"}}
ASSUME (IOEnv.AGAIN = "1") \/ (IF Pairs THEN CoversPairs(Tried) ELSE CoversSingles(Tried))

VARIABLES pos, bad
vars == << pos, bad >>
Init == pos = 1 /\ bad = 0
Step == /\ pos <= N
        /\ pos' = pos + 1
        /\ IF Conforms(Raw[pos]) THEN bad' = bad
           ELSE bad' = bad + 1 /\ PrintT(<< "REJECT", Raw[pos].id >>)
Spec == Init /\ [][Step]_vars
AllConsumed == TLCGet("stats").distinct = N + 1
=============================================================================
