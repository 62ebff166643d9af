------------------------------ MODULE ObsMachine -----------------------------
(* Validates what the library returned on foreign machines.  Record:         *)
(*   [id, f, m, x, y: the call; r, e: the result, or <<>> and why, when       *)
(*    there was none; builds: the machines (Build records, and as trap:       *)
(*    whether misaligned accesses trap there) that returned this]             *)
(* A portable function returns what it returns everywhere; t1ha0 what the     *)
(* portable default for the machine's word size and byte order returns; a     *)
(* disabled function is absent, any other call returns: no trap, no fault.    *)
EXTENDS Build, TLC, Json, IOUtils
LOCAL INSTANCE Api
Range(s) == {s[i] : i \in 1..Len(s)}

Raw == ndJsonDeserialize(IOEnv.OBS)
N == Len(Raw)
Chunks == 64
Bld(b) == [b EXCEPT !.dis = Range(@)]

Family(f) == CASE f \in {"2a64", "2a128", "2s64", "2s128"} -> 2 [] f \in {"1le", "1be"} -> 1
               [] f \in {"0le", "0be", "t1ha0", "resolve"} -> 0 [] OTHER -> 3
Offers(b, f) == Enabled(b, Family(f)) /\ (f = "resolve" => b.rt)
Target(b, f) == IF f \in {"t1ha0", "resolve"} THEN Portable(b) ELSE f
Expect(o, f) == IF f = "self" THEN << << 0, 0, 0, 0 >>, <<>> >> ELSE Value(f, o.m, o.x, o.y)

Conforms(o) ==
  LET bs == {Bld(b) : b \in Range(o.builds)}
      offering == {b \in bs : Offers(b, o.f)}
  IN  IF o.why = "absent" THEN offering = {}
      ELSE /\ o.r # << >> /\ offering = bs
           /\ \A f \in {Target(b, o.f) : b \in bs} : << o.r, o.e >> = Expect(o, f)

VARIABLES chunk, pos, bad
vars == << chunk, pos, bad >>
Index(c, p) == (p - 1) * Chunks + c
Init == chunk \in 1..Chunks /\ pos = 1 /\ bad = 0
Accept == /\ Index(chunk, pos) <= N
          /\ Conforms(Raw[Index(chunk, pos)])
          /\ pos' = pos + 1 /\ UNCHANGED << chunk, bad >>
Reject == /\ Index(chunk, pos) <= N
          /\ ~ Conforms(Raw[Index(chunk, pos)])
          /\ PrintT(<< "REJECT", Raw[Index(chunk, pos)].id >>)
          /\ pos' = pos + 1 /\ bad' = bad + 1 /\ UNCHANGED chunk
Next == Accept \/ Reject
Spec == Init /\ [][Next]_vars
AllConsumed == TLCGet("stats").distinct = N + Chunks
=============================================================================
