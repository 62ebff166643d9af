------------------------------- MODULE ObsSelf -------------------------------
(* Validates runs of the real self-checks with faults injected.             *)
(* Record: [id, build, cpu, k: the check, kind,                             *)
(*   seen: <<[f, js]>>      what was probed (kind "B", no faults)           *)
(*   faults: <<[f, j, occ]>> functions made wrong (kind "F")                *)
(*   rc, delivered]         the verdict; whether a wrong value was returned *)
EXTENDS Build, TLC, Json, IOUtils
Raw == ndJsonDeserialize(IOEnv.OBS)
Range(s) == {s[i] : i \in 1..Len(s)}
Obs == [i \in 1..Len(Raw) |-> [Raw[i] EXCEPT !.build = [@ EXCEPT !.dis = Range(@)]]]
N == Len(Raw)
Chunks == 64
NRef == 81

Seen(o, f) == UNION {Range(o.seen[i].js) : i \in {n \in 1..Len(o.seen) : o.seen[n].f = f}}
Conforms(o) ==
  IF o.kind = "B"
  THEN /\ o.rc = 0
       /\ \A f \in Covers(o.build, o.cpu, o.k) : 1..NRef \subseteq Seen(o, f)
  ELSE /\ o.rc = (IF o.delivered THEN -1 ELSE 0)              \* SelfCheck!Verdict
       /\ (\E i \in 1..Len(o.faults) : /\ o.faults[i].f \in Covers(o.build, o.cpu, o.k)
                                       /\ o.faults[i].occ \in {0, 1})
          => o.rc = -1                                         \* SelfCheck!Rejects

VARIABLES chunk, pos, bad
vars == << chunk, pos, bad >>
Index(c, p) == (p - 1) * Chunks + c
Init == chunk \in 1..Chunks /\ pos = 1 /\ bad = 0
Accept == /\ Index(chunk, pos) <= N
          /\ Conforms(Obs[Index(chunk, pos)])
          /\ pos' = pos + 1 /\ UNCHANGED << chunk, bad >>
Reject == /\ Index(chunk, pos) <= N
          /\ ~ Conforms(Obs[Index(chunk, pos)])
          /\ PrintT(<< "REJECT", Obs[Index(chunk, pos)].id >>)
          /\ pos' = pos + 1 /\ bad' = bad + 1 /\ UNCHANGED chunk
Next == Accept \/ Reject
Spec == Init /\ [][Next]_vars
AllConsumed == TLCGet("stats").distinct = N + Chunks
=============================================================================
