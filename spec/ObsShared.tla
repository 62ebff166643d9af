------------------------------- MODULE ObsShared -----------------------------
(* Validates a shared library and the programs that use it.  Record:        *)
(*   [id, build, cpu, how: "c" | "c++" | "dlopen" | "none",                 *)
(*    symbols: dynamic symbols the library defines, without the toolchain's *)
(*    own, linked: BOOLEAN, vals: <<[k, n, r, e]>>, selfs: <<[k, rc]>>]     *)
EXTENDS BuildVals, Json, IOUtils

Raw == ndJsonDeserialize(IOEnv.OBS)
Obs == [i \in 1..Len(Raw) |-> [Raw[i] EXCEPT !.build = [@ EXCEPT !.dis = Range(@)]]]
N == Len(Raw)
Chunks == 64

Values(o) == ValueNames(o) \cap (Usable(o.build) \cup {"t1ha2_final128"})
Checks(o) == CheckNames(o.build)

Faults(o) ==
  (IF Exported(o.build) \subseteq Range(o.symbols) THEN {} ELSE {"not exported"})
  \cup (IF Range(o.symbols) \subseteq Exported(o.build) \cup Optional THEN {} ELSE {"internal symbol exported"})
  \cup (IF o.how = "none" THEN {}
        ELSE IF ~ o.linked THEN {"a program cannot be linked with it"}
        ELSE (IF (Values(o) \X Lens) \subseteq {<< o.vals[i].k, o.vals[i].n >> : i \in 1..Len(o.vals)} THEN {} ELSE {"value missing"})
             \cup (IF \A i \in 1..Len(o.vals) : << o.vals[i].r, o.vals[i].e >> = Known[Fn(o, o.vals[i].k)][o.vals[i].n]
                   THEN {} ELSE {"wrong value"})
             \cup (IF \A k \in Runnable(o, Checks(o)) : \E i \in 1..Len(o.selfs) : o.selfs[i].k = k
                   THEN {} ELSE {"self-check missing"})
             \cup (IF \A i \in 1..Len(o.selfs) : o.selfs[i].rc = 0 THEN {} ELSE {"self-check fails"}))

VARIABLES chunk, pos, bad
vars == << chunk, pos, bad >>
Index(c, p) == (p - 1) * Chunks + c
Init == chunk \in 1..Chunks /\ pos = 1 /\ bad = 0
Accept == bad' = bad
Reject(f) == /\ PrintT(<< "REJECT", Obs[Index(chunk, pos)].id, ToString(f) >>)
             /\ bad' = bad + 1
Step == /\ Index(chunk, pos) <= N
        /\ LET f == Faults(Obs[Index(chunk, pos)]) IN IF f = {} THEN Accept ELSE Reject(f)
        /\ pos' = pos + 1 /\ UNCHANGED chunk
Next == Step
Spec == Init /\ [][Next]_vars
AllConsumed == TLCGet("stats").distinct = N + Chunks
=============================================================================
