------------------------------- MODULE StreamAbs -----------------------------
(* What streams mean to a user.  A live context stands for its seeds and    *)
(* the bytes fed so far, and nothing else; finalising yields a value that   *)
(* depends on these and on the kind of finalisation only (H, uninterpreted) *)
(* and ends the context's life.  Contexts can be copied and initialised     *)
(* anew at any time, whatever their memory held.                            *)
EXTENDS Integers, Sequences

CONSTANTS Ctx, Seeds, MaxLen, H(_, _, _),
          Piece(_, _, _), Lens, Flavours    \* the pieces that can be fed at some point of a stream

VARIABLES view,     \* context -> <<>> (dead) or << seed, bytes >>
          last      \* the latest result, or << >>
avars == << view, last >>

Dead == << >>

AInit == view = [c \in Ctx |-> Dead] /\ last = << >>
AStart(c, sd) == view' = [view EXCEPT ![c] = << sd, << >> >>] /\ last' = << >>
AFeed(c, p) == /\ view[c] # Dead
               /\ Len(view[c][2]) + Len(p) <= MaxLen
               /\ view' = [view EXCEPT ![c] = << @[1], @[2] \o p >>]
               /\ last' = << >>
ACopy(c, d) == view[c] # Dead /\ c # d /\ view' = [view EXCEPT ![d] = view[c]] /\ last' = << >>
AFinish(c, kind) == /\ view[c] # Dead
                    /\ last' = H(view[c][1], view[c][2], kind)
                    /\ view' = [view EXCEPT ![c] = Dead]
ANext == \E c \in Ctx : \/ \E sd \in Seeds : AStart(c, sd)
                        \/ \E n \in Lens, f \in Flavours :
                                view[c] # Dead /\ AFeed(c, Piece(Len(view[c][2]), n, f))
                        \/ \E d \in Ctx : ACopy(c, d)
                        \/ \E k \in {64, 128} : AFinish(c, k)
ASpec == AInit /\ [][ANext]_avars
=============================================================================
