-------------------------------- MODULE ObsHash ------------------------------
(* Validates observations of the real hash functions against the            *)
(* specification.  Each line of the trace is one observed call (or several  *)
(* calls with the same observation):                                        *)
(*   {id, f: function, m: message record, x: seed, y: second seed,          *)
(*    r: result, e: extra result or []}                                     *)
(* A result that is no word ("fault", e.g.) is written r: [].               *)
(* The observations are split in chunks so that TLC's workers share them.   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Api

Obs == ndJsonDeserialize(IOEnv.OBS)
N == Len(Obs)
Chunks == 64

VARIABLES chunk, pos, bad
vars == << chunk, pos, bad >>

Index(c, p) == (p - 1) * Chunks + c

Conforms(o) == Value(o.f, o.m, o.x, o.y) = << o.r, o.e >>

Init == chunk \in 1..Chunks /\ pos = 1 /\ bad = 0

Accept == /\ Index(chunk, pos) <= N
          /\ Conforms(Obs[Index(chunk, pos)])
          /\ pos' = pos + 1 /\ UNCHANGED << chunk, bad >>

Reject == /\ Index(chunk, pos) <= N
          /\ ~ Conforms(Obs[Index(chunk, pos)])
          /\ PrintT(<< "REJECT", Obs[Index(chunk, pos)].id,
                       Value(Obs[Index(chunk, pos)].f, Obs[Index(chunk, pos)].m,
                             Obs[Index(chunk, pos)].x, Obs[Index(chunk, pos)].y) >>)
          /\ pos' = pos + 1 /\ bad' = bad + 1 /\ UNCHANGED chunk

Next == Accept \/ Reject
Spec == Init /\ [][Next]_vars

(* every observation was consumed: one state per observation and chunk *)
AllConsumed == TLCGet("stats").distinct = N + Chunks
=============================================================================
