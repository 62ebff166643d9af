------------------------------ MODULE ObsPackage ------------------------------
(* Validates a static library as a build description of the project yields  *)
(* it, and programs linked with it.  Record:                                *)
(*   [id, by: "make" | "meson" | "vs", build, cpu, host,                     *)
(*    made: whether the library came about,                                  *)
(*    symbols: global symbols it defines that begin with t1ha,               *)
(*    others: those that do not,                                             *)
(*    how: "c" | "c++" | "none" (not linked on purpose),                      *)
(*    linked: BOOLEAN, vals: <<[k, n, r, e]>>, selfs: <<[k, rc]>>]            *)
(* A program uses those of the names that the library defines.               *)
EXTENDS BuildVals, Json, IOUtils

Raw == ndJsonDeserialize(IOEnv.OBS)
Obs == [i \in 1..Len(Raw) |-> [Raw[i] EXCEPT !.build = [@ EXCEPT !.dis = Range(@)]]]
N == Len(Raw)
Chunks == 64

Has(o) == Range(o.symbols)
(* with a pointer or a definition t1ha0 itself is inline *)
Inline(o) == IF o.build.rt /\ o.build.ifunc THEN {} ELSE {"t1ha0"}
Hashes(o) == HashNames(o.build) \ Inline(o)
Checks(o) == CheckNames(o.build)
Values(o) == (ValueNames(o) \cap (Has(o) \cup Inline(o) \cup {"t1ha2_final128"}))

Faults(o) ==
  IF ~ o.made THEN {"not built"}
  ELSE (IF Hashes(o) \subseteq Has(o) THEN {} ELSE {"a function is not defined"})
       \cup (IF Checks(o) \subseteq Has(o) THEN {} ELSE IF Checks(o) \cap Has(o) = {} THEN {"no self-check is defined"}
             ELSE {"a self-check is not defined"})
       \cup (IF o.others = << >> THEN {} ELSE {"defines a name that is not its own"})
       \cup (IF o.how = "none" THEN {}
             ELSE IF ~ o.linked THEN {"a program cannot be linked with it"}
             ELSE (IF (Values(o) \X Lens) \subseteq {<< o.vals[i].k, o.vals[i].n >> : i \in 1..Len(o.vals)} THEN {} ELSE {"value missing"})
                  \cup (IF \A i \in 1..Len(o.vals) : << o.vals[i].r, o.vals[i].e >> = Known[Fn(o, o.vals[i].k)][o.vals[i].n]
                        THEN {} ELSE {"wrong value"})
                  \cup (IF \A k \in Runnable(o, Checks(o) \cap Has(o)) : \E i \in 1..Len(o.selfs) : o.selfs[i].k = k
                        THEN {} ELSE {"self-check missing"})
                  \cup (IF \A i \in 1..Len(o.selfs) : o.selfs[i].rc = 0 THEN {} ELSE {"self-check fails"}))

VARIABLES chunk, pos, bad
vars == << chunk, pos, bad >>
Index(c, p) == (p - 1) * Chunks + c
Init == chunk \in 1..Chunks /\ pos = 1 /\ bad = 0
Accept == bad' = bad
Reject(f) == /\ PrintT(<< "REJECT", Obs[Index(chunk, pos)].id, ToString(f) >>)
             /\ bad' = bad + 1
Step == /\ Index(chunk, pos) <= N
        /\ LET f == Faults(Obs[Index(chunk, pos)]) IN IF f = {} THEN Accept ELSE Reject(f)
        /\ pos' = pos + 1 /\ UNCHANGED chunk
Next == Step
Spec == Init /\ [][Next]_vars
AllConsumed == TLCGet("stats").distinct = N + Chunks
=============================================================================
