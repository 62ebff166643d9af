------------------------------- MODULE ObsStream -----------------------------
(* Validates recorded histories of stream operations.  Each line is one     *)
(* history {id, ops: [...], r: [[returned, stored], ...]}: the operations   *)
(* performed on up to four contexts and the results of the finalisations    *)
(* in their order.  Each history must be a behaviour of StreamExact.        *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils, StreamExact

Hist == ndJsonDeserialize(IOEnv.OBS)
Slots == 1..4

VARIABLES h, at, done, ctxs, bad
ovars == << h, at, done, ctxs, bad >>

Init == h \in 1..Len(Hist) /\ at = 0 /\ done = 0 /\ bad = 0 /\ ctxs = [c \in Slots |-> NoCtx]

Op == Hist[h].ops[at + 1]
IsFinal == Op.o \in {"f", "g"}
Observed == << Hist[h].r[done + 1][1], Hist[h].r[done + 1][2] >>
Matches == IsFinal => done < Len(Hist[h].r) /\ Closed(ctxs[Op.c], Op.o) = Observed

More == at < Len(Hist[h].ops) /\ Enabled(ctxs, Op)
Move(b) == /\ at' = at + 1
           /\ done' = IF IsFinal THEN done + 1 ELSE done
           /\ ctxs' = Step(ctxs, Op)
           /\ bad' = bad + b /\ UNCHANGED h
Accept == More /\ Matches /\ Move(0)
Reject == /\ More /\ ~ Matches
          /\ PrintT(<< "REJECT", Hist[h].id, Closed(ctxs[Op.c], Op.o), at + 1 >>)
          /\ Move(1)
Next == Accept \/ Reject
Spec == Init /\ [][Next]_ovars

(* the incremental definition agrees with the definition on whole messages *)
Agrees == (at < Len(Hist[h].ops) /\ Op.o \in {"f", "g"} /\ ctxs[Op.c].live /\ ctxs[Op.c].full)
            => Closed(ctxs[Op.c], Op.o) = Whole(ctxs[Op.c], Op.o)

(* every operation of every history was consumed *)
AllConsumed == TLCGet("stats").distinct = FoldLeft(LAMBDA acc, x : acc + Len(x.ops) + 1, 0, Hist)
=============================================================================
