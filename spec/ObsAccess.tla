------------------------------- MODULE ObsAccess -----------------------------
(* Validates recorded memory accesses of calls.  Each line is one call:     *)
(*   {id, f: function, mode: "pages" | "exact", a: offset of the message    *)
(*    in an arena of whole pages, n: its length, ctx: [first, last] byte of *)
(*    the context in its page (or []), ext: [first, last] of the result     *)
(*    cell (or []), acc: [[kind, region, offset, size], ...]}               *)
(* kind L(oad), S(tore), M(odify); region m(essage arena), c(ontext page),  *)
(* e(xtra result page), o(ther, stores only; the call's own stack is not    *)
(* listed).                                                                 *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Obs == ndJsonDeserialize(IOEnv.OBS)
N == Len(Obs)
Chunks == 64
Page == 4096
PageOf(x) == x \div Page

(* bytes of the message arena a call may read *)
MayRead(o, x) == /\ o.n > 0
                 /\ CASE o.mode = "exact" -> x >= o.a /\ x < o.a + o.n
                      [] o.mode = "pages" -> PageOf(x) >= PageOf(o.a) /\ PageOf(x) <= PageOf(o.a + o.n - 1)
Within(r, x, s) == r # << >> /\ x >= r[1] /\ x + s - 1 <= r[2]

Entitled(o, c) ==
  LET kind == c[1]  region == c[2]  x == c[3]  s == c[4]
  IN  CASE region = "m" -> kind = "L" /\ MayRead(o, x) /\ MayRead(o, x + s - 1)
        [] region = "c" -> Within(o.ctx, x, s)
        [] region = "e" -> Within(o.ext, x, s)
        [] region = "o" -> kind = "L"

Wrong(o) == { i \in 1..Len(o.acc) : ~ Entitled(o, o.acc[i]) }

VARIABLES chunk, pos, bad
vars == << chunk, pos, bad >>
Index(c, p) == (p - 1) * Chunks + c
Init == chunk \in 1..Chunks /\ pos = 1 /\ bad = 0
Cur == Obs[Index(chunk, pos)]
Accept == /\ Index(chunk, pos) <= N /\ Wrong(Cur) = {}
          /\ pos' = pos + 1 /\ UNCHANGED << chunk, bad >>
Reject == /\ Index(chunk, pos) <= N /\ Wrong(Cur) # {}
          /\ PrintT(<< "REJECT", Cur.id, Cur.acc[CHOOSE i \in Wrong(Cur) : TRUE] >>)
          /\ pos' = pos + 1 /\ bad' = bad + 1 /\ UNCHANGED chunk
Next == Accept \/ Reject
Spec == Init /\ [][Next]_vars
AllConsumed == TLCGet("stats").distinct = N + Chunks
=============================================================================
