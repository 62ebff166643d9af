------------------------------- MODULE ObsBuild ------------------------------
(* Validates what a configuration of the real library was seen to offer.    *)
(* Record: [id, build, cpu, host: accelerated variants the machine can run, *)
(*   built, declared: names the header declares, defined: names the objects *)
(*   define, vals: <<[k: name, n, r, e]>>, selfs: <<[k, rc]>>]              *)
EXTENDS BuildVals, Json, IOUtils

Raw == ndJsonDeserialize(IOEnv.OBS)
Obs == [i \in 1..Len(Raw) |-> [Raw[i] EXCEPT !.build = [@ EXCEPT !.dis = Range(@)]]]
N == Len(Raw)
Chunks == 64

Absent(b) == (IF 2 \in b.dis THEN T2Names \cup T2Checks ELSE {}) \cup (IF 1 \in b.dis THEN T1Names \cup T1Checks ELSE {})
             \cup (IF 0 \in b.dis THEN {n \in AllNames : n \notin T2Names \cup T2Checks \cup T1Names \cup T1Checks
                                                        /\ n # "t1ha_selfcheck__all_enabled"} ELSE {})

Faults(o) ==
  IF ~ o.built THEN {"does not build"}
  ELSE (IF Names(o.build) \subseteq Range(o.declared) THEN {} ELSE {"not declared"})
       \cup (IF Range(o.declared) \cap Absent(o.build) = {} THEN {} ELSE {"declared although disabled"})
       \cup (IF Range(o.defined) \cap Absent(o.build) = {} THEN {} ELSE {"defined although disabled"})
       \cup (IF (ValueNames(o) \X Lens) \subseteq {<< o.vals[i].k, o.vals[i].n >> : i \in 1..Len(o.vals)} THEN {} ELSE {"value missing"})
       \cup (IF \A i \in 1..Len(o.vals) : << o.vals[i].r, o.vals[i].e >> = Known[Fn(o, o.vals[i].k)][o.vals[i].n]
             THEN {} ELSE {"wrong value"})
       \cup (IF \A k \in Runnable(o, CheckNames(o.build)) : \E i \in 1..Len(o.selfs) : o.selfs[i].k = k
             THEN {} ELSE {"self-check missing"})
       \cup (IF \A i \in 1..Len(o.selfs) : o.selfs[i].rc = 0 THEN {} ELSE {"self-check fails"})

VARIABLES chunk, pos, bad
vars == << chunk, pos, bad >>
Index(c, p) == (p - 1) * Chunks + c
Init == chunk \in 1..Chunks /\ pos = 1 /\ bad = 0
Accept == bad' = bad
Reject(f) == /\ PrintT(<< "REJECT", Obs[Index(chunk, pos)].id, ToString(f) >>)
             /\ bad' = bad + 1
Step == /\ Index(chunk, pos) <= N
        /\ LET f == Faults(Obs[Index(chunk, pos)]) IN IF f = {} THEN Accept ELSE Reject(f)
        /\ pos' = pos + 1 /\ UNCHANGED chunk
Next == Step
Spec == Init /\ [][Next]_vars
AllConsumed == TLCGet("stats").distinct = N + Chunks
=============================================================================
