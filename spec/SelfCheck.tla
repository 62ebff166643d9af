------------------------------ MODULE SelfCheck ------------------------------
(* The self-checks, shaped like the code: each leaf check probes one        *)
(* function on every reference input and accumulates a failure flag; the    *)
(* aggregates run their leaves in turn and combine the results with a       *)
(* bitwise or.  A faulty library is one in which some calls return a value  *)
(* other than the reference: Faults is a set of << function, reference      *)
(* input, occurrence >>, occurrence 0 being every call.                     *)
EXTENDS Build

CONSTANTS NRef, MaxFaults, BuildSet, CpuSet
VARIABLES b, c, k, faults,        \* fixed in a behaviour
          todo,                   \* leaf functions still to be checked
          j,                      \* next reference input of the current leaf
          flag,                   \* the current leaf's failure flag
          rc, times, delivered, probed
vars == << b, c, k, faults, todo, j, flag, rc, times, delivered, probed >>

Fns == {"2a64", "2a128", "2s64", "2s128", "1le", "1be", "0le", "0be", "aes", "avx", "avx2"}

(* the leaves a check runs, in the code's order *)
RECURSIVE Leaves(_, _, _)
Leaves(bb, cc, kk) ==
  CASE kk = "t1ha_selfcheck__t1ha2_atonce"    -> << "2a64" >>
    [] kk = "t1ha_selfcheck__t1ha2_atonce128" -> << "2a128" >>
    [] kk = "t1ha_selfcheck__t1ha2_stream"    -> << "2s64", "2s128" >>
    [] kk = "t1ha_selfcheck__t1ha2"           -> << "2a64", "2a128", "2s64", "2s128" >>
    [] kk = "t1ha_selfcheck__t1ha1_le"        -> << "1le" >>
    [] kk = "t1ha_selfcheck__t1ha1_be"        -> << "1be" >>
    [] kk = "t1ha_selfcheck__t1ha1"           -> << "1le", "1be" >>
    [] kk = "t1ha_selfcheck__t1ha0_32le"      -> << "0le" >>
    [] kk = "t1ha_selfcheck__t1ha0_32be"      -> << "0be" >>
    [] kk = "t1ha_selfcheck__t1ha0_ia32aes_noavx" -> << "aes" >>
    [] kk = "t1ha_selfcheck__t1ha0_ia32aes_avx"   -> << "avx" >>
    [] kk = "t1ha_selfcheck__t1ha0_ia32aes_avx2"  -> << "avx2" >>
    [] kk = "t1ha_selfcheck__t1ha0" ->
         << "0le", "0be" >>
         \o (IF bb.word = 64 /\ ~ ({1, 2} \subseteq bb.dis)
             THEN IF 1 \in bb.dis THEN Leaves(bb, cc, "t1ha_selfcheck__t1ha2") ELSE Leaves(bb, cc, "t1ha_selfcheck__t1ha1")
             ELSE << >>)
         \o (IF bb.aes /\ HasAes(cc) THEN << "aes" >> ELSE << >>)
         \o (IF bb.aes /\ HasAvx(cc) THEN << "avx" >> ELSE << >>)
         \o (IF bb.aes /\ HasAvx2(cc) THEN << "avx2" >> ELSE << >>)
    [] kk = "t1ha_selfcheck__all_enabled" ->
         (IF 2 \in bb.dis THEN << >> ELSE Leaves(bb, cc, "t1ha_selfcheck__t1ha2"))
         \o (IF 1 \in bb.dis THEN << >> ELSE Leaves(bb, cc, "t1ha_selfcheck__t1ha1"))
         \o (IF 0 \in bb.dis THEN << >> ELSE Leaves(bb, cc, "t1ha_selfcheck__t1ha0"))

AllFaults == Fns \X (1..NRef) \X {0, 1, 2}
FaultSets == {{}} \cup {{f} : f \in AllFaults}
             \cup (IF MaxFaults >= 2 THEN {{f, g} : f \in AllFaults, g \in AllFaults} ELSE {})
             \cup {Fns \X (1..NRef) \X {0}}

Init == /\ b \in BuildSet /\ c \in CpuSet /\ k \in CheckNames(b)
        /\ faults = {}
        /\ todo = << "choose" >> /\ j = 1 /\ flag = FALSE /\ rc = 0
        /\ times = [x \in Fns |-> [i \in 1..NRef |-> 0]] /\ delivered = FALSE /\ probed = {}

(* faults are chosen in a step rather than initially, so that TLC's workers share the work *)
Choose == /\ todo = << "choose" >>
          /\ faults' \in FaultSets
          /\ todo' = Leaves(b, c, k)
          /\ UNCHANGED << b, c, k, j, flag, rc, times, delivered, probed >>

Wrong(f, i, t) == << f, i, 0 >> \in faults \/ << f, i, t >> \in faults

Running == todo # << >> /\ todo # << "choose" >>
Probe == /\ Running /\ j <= NRef
         /\ LET f == todo[1]
                w == Wrong(f, j, times[f][j] + 1)
            IN  /\ flag' = (flag \/ w)
                /\ delivered' = (delivered \/ w)
                /\ times' = [times EXCEPT ![f][j] = @ + 1]
                /\ probed' = probed \cup {<< f, j >>}
         /\ j' = j + 1
         /\ UNCHANGED << b, c, k, faults, todo, rc >>

Or(x, y) == IF x = -1 \/ y = -1 THEN -1 ELSE 0
LeafDone == /\ Running /\ j > NRef
            /\ rc' = Or(rc, IF flag THEN -1 ELSE 0)
            /\ todo' = SubSeq(todo, 2, Len(todo)) /\ j' = 1 /\ flag' = FALSE
            /\ UNCHANGED << b, c, k, faults, times, delivered, probed >>
Next == Choose \/ Probe \/ LeafDone
Spec == Init /\ [][Next]_vars

Done == todo = << >>
(* ------------------------------ properties ------------------------------ *)
Verdict == Done => (rc = IF delivered THEN -1 ELSE 0)
(* whatever the check is responsible for was probed on every reference input *)
Complete == Done => \A f \in Covers(b, c, k) : \A i \in 1..NRef : << f, i >> \in probed
(* a function wrong on a reference input fails the check, even if wrong only once *)
Rejects == Done => \A q \in faults : q[1] \in Covers(b, c, k) /\ q[3] \in {0, 1} => rc = -1
(* nothing the processor cannot execute: accelerated variants run by the aggregates are supported *)
OnlySupported == k \in {"t1ha_selfcheck__t1ha0", "t1ha_selfcheck__all_enabled"} =>
                   \A p \in probed : p[1] \in Accelerated => p[1] \in Supported(c)
=============================================================================
