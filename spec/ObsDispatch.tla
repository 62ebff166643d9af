----------------------------- MODULE ObsDispatch -----------------------------
(* Validates what a program built in configuration o.build, on processor    *)
(* o.cpu, was seen to execute: calls through t1ha0 and through the resolved *)
(* pointer (which implementations were entered, what came out), and the     *)
(* self-checks (what they entered, what they returned).                     *)
(* Record: [id, build, cpu, resolve: name or "none", calls: <<[k, n, in, r]>>,*)
(* selfs: <<[k, rc, in]>>].  An r of <<>> is a fault.                       *)
EXTENDS Build, TLC, Json, IOUtils
LOCAL INSTANCE Api

Raw == ndJsonDeserialize(IOEnv.OBS)
Range(s) == {s[i] : i \in 1..Len(s)}
(* JSON has no sets *)
Obs == [i \in 1..Len(Raw) |-> [Raw[i] EXCEPT !.build = [@ EXCEPT !.dis = Range(@)]]]
N == Len(Raw)
Chunks == 64

Msg(n) == [g |-> "p", s |-> 7, n |-> n, b |-> << >>]
Seed == << 57073, 39612, 22136, 4660 >>       \* 0x123456789abcdef1
(* every implementation's value for each length used, computed once *)
Lens == {0, 3, 21, 64, 200}
Known == [f \in {"2a64", "1le", "1be", "0le", "0be", "aes", "avx", "avx2"} |->
           [n \in Lens |-> Value(f, Msg(n), Seed, Seed)[1]]]

(* the stream's steps stand for the stream functions *)
Functions(s) == (s \ {"init", "update", "final"})
                \cup (IF {"init", "update", "final"} \subseteq s THEN {"2s64", "2s128"} ELSE {})

CallOk(o, c) ==
  LET want == Choice(o.build, o.cpu)
      in == Range(c.in)
  IN  /\ c.r = Known[want][c.n]                                   \* the right value
      /\ (in \cap Accelerated) \subseteq Supported(o.cpu)         \* nothing the processor lacks
      /\ (c.in # << >> => c.in[1] = want)                         \* the implementation itself
SelfOk(o, s) ==
  LET in == Functions(Range(s.in))
      want == Covers(o.build, o.cpu, s.k)
  IN  /\ s.rc = 0
      /\ want \subseteq in
      /\ (in \cap Accelerated) \subseteq Supported(o.cpu)
ResolveOk(o) == o.resolve \in {"none", "other", Choice(o.build, o.cpu)}

BadCalls(o) == {i \in 1..Len(o.calls) : ~ CallOk(o, o.calls[i])}
BadSelfs(o) == {i \in 1..Len(o.selfs) : ~ SelfOk(o, o.selfs[i])}
Conforms(o) == ResolveOk(o) /\ BadCalls(o) = {} /\ BadSelfs(o) = {}

VARIABLES chunk, pos, bad
vars == << chunk, pos, bad >>
Index(c, p) == (p - 1) * Chunks + c
Init == chunk \in 1..Chunks /\ pos = 1 /\ bad = 0
Accept == /\ Index(chunk, pos) <= N
          /\ Conforms(Obs[Index(chunk, pos)])
          /\ pos' = pos + 1 /\ UNCHANGED << chunk, bad >>
Reject == /\ Index(chunk, pos) <= N
          /\ ~ Conforms(Obs[Index(chunk, pos)])
          /\ LET o == Obs[Index(chunk, pos)]
             IN  PrintT(<< "REJECT", o.id, Choice(o.build, o.cpu), ResolveOk(o),
                           ToString(BadCalls(o)), ToString({o.selfs[i].k : i \in BadSelfs(o)}) >>)
          /\ pos' = pos + 1 /\ bad' = bad + 1 /\ UNCHANGED chunk
Next == Accept \/ Reject
Spec == Init /\ [][Next]_vars
AllConsumed == TLCGet("stats").distinct = N + Chunks
=============================================================================
