------------------------------- MODULE ObsLong -------------------------------
(* Validates observed hashes of long messages against Long.  A record is    *)
(* {id, f: function, s: salt, o: content offset, n: length as four limbs,   *)
(*  x, y: seeds, r: result, e: extra result or []}.                         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Long

Obs == ndJsonDeserialize(IOEnv.OBS)
Count == Len(Obs)
ChunkCount == 32
ASSUME Native

VARIABLES chunk, pos, bad
vars == << chunk, pos, bad >>

Index(c, p) == (p - 1) * ChunkCount + c
Defined(o) == LongValue(o.f, o.s, o.o, o.n, o.x, o.y)

Init == chunk \in 1..ChunkCount /\ pos = 1 /\ bad = 0
Judge == /\ Index(chunk, pos) <= Count
         /\ LET o == Obs[Index(chunk, pos)]
                v == Defined(o)
            IN  IF v = << o.r, o.e >> THEN bad' = bad
                ELSE PrintT(<< "REJECT", o.id, v >>) /\ bad' = bad + 1
         /\ pos' = pos + 1 /\ UNCHANGED chunk
Spec == Init /\ [][Judge]_vars

AllConsumed == TLCGet("stats").distinct = Count + ChunkCount
=============================================================================
