------------------------------ MODULE ObsOptions -----------------------------
(* Validates rows of options as built and run:                              *)
(*   [id, row, cpu, built, self: result of the overall self-check,          *)
(*    dispatch: << [n, x, r] >> results of t1ha0,                           *)
(*    fns: named functions whose values were judged (by ObsHash)]           *)
(* and that together the rows cover every pair of option values.            *)
EXTENDS Options, Json, IOUtils
LOCAL INSTANCE Api
Raw == ndJsonDeserialize(IOEnv.OBS)
N == Len(Raw)
Chunks == 64
Range(s) == {s[i] : i \in 1..Len(s)}
Msg(n) == [g |-> "p", s |-> 5, n |-> n, b |-> << >>]

Runnable(o) == Offered(o.row) \ ({"aes", "avx", "avx2"} \ Range(o.host))
DispatchOk(o, d) == d.r = Value(Choice(BuildOf(o.row), o.cpu), Msg(d.n), d.x, d.x)[1]

Faults(o) ==
  IF ~ IsRow(o.row) THEN {"not a row"}
  ELSE IF ~ o.built THEN {"does not build"}
  ELSE (IF o.self = 0 THEN {} ELSE {"self-check fails"})
       \cup (IF o.dispatch # << >> /\ \A i \in 1..Len(o.dispatch) : DispatchOk(o, o.dispatch[i]) THEN {}
             ELSE {"t1ha0 is another function"})
       \cup (IF Runnable(o) \subseteq Range(o.fns) THEN {} ELSE {"a function gave no value"})
Conforms(o) == Faults(o) = {}

VARIABLES chunk, pos, bad
vars == << chunk, pos, bad >>
Index(c, p) == (p - 1) * Chunks + c
Init == chunk \in 1..Chunks /\ pos = 1 /\ bad = 0
Accept == /\ Index(chunk, pos) <= N
          /\ Conforms(Raw[Index(chunk, pos)])
          /\ pos' = pos + 1 /\ UNCHANGED << chunk, bad >>
Reject == /\ Index(chunk, pos) <= N
          /\ ~ Conforms(Raw[Index(chunk, pos)])
          /\ PrintT(<< "REJECT", Raw[Index(chunk, pos)].id, ToString(Faults(Raw[Index(chunk, pos)])) >>)
          /\ pos' = pos + 1 /\ bad' = bad + 1 /\ UNCHANGED chunk
Next == Accept \/ Reject
Spec == Init /\ [][Next]_vars
(* everything was consumed, and the rows cover all pairs (unless this is a re-run of some) *)
Post == /\ TLCGet("stats").distinct = N + Chunks
        /\ IOEnv.PARTIAL = "no" => CoversAllPairs({Raw[i].row : i \in 1..N})
=============================================================================
