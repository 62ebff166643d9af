------------------------------- MODULE StreamGen -----------------------------
(* Generates histories of stream operations, to be performed by the real    *)
(* code: the contexts' fill levels are tracked at the real block size, and  *)
(* the behaviours are printed when they are Depth operations long (run in   *)
(* simulation mode).  Piece lengths are drawn relative to the fill level,   *)
(* so that the edges of the buffer are met from both sides.                 *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Slots, Depth, Big
VARIABLES fill, hist      \* slot -> -1 (dead) or bytes fed mod 32
gvars == << fill, hist >>

Live(c) == fill[c] >= 0
(* lengths: nothing, few, up to just short of / at / just past the edge, blocks and their edges, long *)
LensAt(f) == {0, 1, 2, 7, 8, 31, 32, 33, 63, 64, 65, 96} \cup {(31 - f), (32 - f), (33 - f)}
             \cup {(64 - f), (63 - f), (95 - f)} \cup Big

Init == fill = [c \in Slots |-> -1] /\ hist = << >>
Start(c) == fill' = [fill EXCEPT ![c] = 0] /\ hist' = Append(hist, [o |-> "i", c |-> c, d |-> 0, n |-> 0])
Feed(c) == /\ Live(c)
           /\ \E n \in LensAt(fill[c]) : /\ fill' = [fill EXCEPT ![c] = (@ + n) % 32]
                                         /\ hist' = Append(hist, [o |-> "u", c |-> c, d |-> 0, n |-> n])
Copy(c, d) == Live(c) /\ c # d /\ fill' = [fill EXCEPT ![d] = fill[c]]
              /\ hist' = Append(hist, [o |-> "k", c |-> c, d |-> d, n |-> 0])
Scribble(c) == ~ Live(c) /\ UNCHANGED fill /\ hist' = Append(hist, [o |-> "w", c |-> c, d |-> 0, n |-> 0])
Finish(c, k) == Live(c) /\ fill' = [fill EXCEPT ![c] = -1]
                /\ hist' = Append(hist, [o |-> k, c |-> c, d |-> 0, n |-> 0])

Emit == /\ Len(hist) = Depth
        /\ PrintT("HIST " \o ToJson(hist))
        /\ hist' = Append(hist, [o |-> "end", c |-> 0, d |-> 0, n |-> 0]) /\ UNCHANGED fill
Next == \/ /\ Len(hist) < Depth
           /\ \E c \in Slots : \/ Start(c) \/ Feed(c) \/ Scribble(c)
                               \/ \E d \in Slots : Copy(c, d)
                               \/ \E k \in {"f", "g"} : Finish(c, k)
        \/ Emit
Spec == Init /\ [][Next]_gvars
=============================================================================
