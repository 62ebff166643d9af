------------------------------- MODULE ProgramGen ----------------------------
(* Generates programs that write an object by typed stores and have parts   *)
(* of it hashed in between, to be compiled together with the library.       *)
(* The object is memory from the heap, which may be written by any type at  *)
(* any time, or a structure (an array among them), whose members have a     *)
(* type each.  Nothing is hashed that was not written.  Run in simulation   *)
(* mode; the values stored are drawn later.                                 *)
(* Either Depth operations in any order, or such a row of kinds of them as  *)
(* Shapes has: brief programs, in which hardly anything but the library     *)
(* keeps an optimiser from moving or dropping a store.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Types, SizeOf, Fns, Depth, MaxSize, Shapes

VARIABLES kind,      \* "heap", "struct" or "array"
          layout,    \* members: <<[t, at]>>
          size,      \* of the object
          def,       \* offsets written
          live,      \* whether the stream is started
          ops, phase,
          shape      \* << >>: any
gvars == << shape, kind, layout, size, def, live, ops, phase >>

Init == /\ kind \in {"heap", "struct", "array"} /\ layout = << >> /\ size = 0 /\ def = {} /\ live = FALSE
        /\ ops = << >> /\ phase = "layout"
        /\ shape \in Shapes

(* members, at the end of those before them *)
Member == /\ phase = "layout" /\ kind # "heap"
          /\ \E t \in Types : \E k \in (IF kind = "array" THEN 1..6 ELSE {1, 1, 2}) :
               /\ size % SizeOf[t] = 0 /\ size + k * SizeOf[t] <= MaxSize
               /\ (kind = "array" /\ layout # << >>) => t = layout[1].t
               /\ layout' = layout \o [i \in 1..k |-> [t |-> t, at |-> size + (i - 1) * SizeOf[t]]]
               /\ size' = size + k * SizeOf[t]
          /\ UNCHANGED << shape, kind, def, live, ops, phase >>
Grow == /\ phase = "layout" /\ kind = "heap" /\ \E k \in 1..5 : size + 8 * k <= MaxSize /\ size' = size + 8 * k
        /\ UNCHANGED << shape, kind, layout, def, live, ops, phase >>
Ready == phase = "layout" /\ size >= (IF shape = << >> THEN 4 ELSE 8) /\ phase' = "run" /\ UNCHANGED << shape, kind, layout, size, def, live, ops >>

Enough == IF shape = << >> THEN Depth ELSE Len(shape)
Running == phase = "run" /\ Len(ops) < Enough
Sort(o) == CASE o \in {"s", "l", "a", "z"} -> "w" [] o \in {"h", "r"} -> "h" [] o \in {"f", "g"} -> "f" [] OTHER -> o
Do(op) == /\ shape # << >> => shape[Len(ops) + 1] = Sort(op.o)
          /\ ops' = Append(ops, op) /\ UNCHANGED << shape, kind, layout, size, phase >>
Op(o, t, at, n, f) == [o |-> o, t |-> t, at |-> at, n |-> n, f |-> f]

Store(t, at) == /\ def' = def \cup (at..(at + SizeOf[t] - 1)) /\ UNCHANGED live
                /\ Do(Op("s", t, at, 1, ""))
StoreOne == /\ Running
            /\ IF kind = "heap"
                 THEN \E t \in Types : \E k \in 0..((size \div SizeOf[t]) - 1) : Store(t, k * SizeOf[t])
                 ELSE \E i \in 1..Len(layout) : Store(layout[i].t, layout[i].at)
(* a loop over neighbours of one type *)
Fill(t, at, n) == /\ n >= 1 /\ def' = def \cup (at..(at + n * SizeOf[t] - 1)) /\ UNCHANGED live
                  /\ Do(Op("l", t, at, n, ""))
FillSome == /\ Running
            /\ \/ kind = "heap" /\ \E t \in Types : \E k \in {0, 1} : Fill(t, k * SizeOf[t], (size \div SizeOf[t]) - k)
               \/ kind = "array" /\ \E k \in {0, 1} : Fill(layout[1].t, k * SizeOf[layout[1].t], Len(layout) - k)
(* all members *)
StoreAll == /\ Running /\ kind = "struct"
            /\ def' = 0..(size - 1) /\ UNCHANGED live /\ Do(Op("a", "", 0, size, ""))
Clear == Running /\ ops = << >> /\ def' = 0..(size - 1) /\ UNCHANGED live /\ Do(Op("z", "", 0, size, ""))

(* what may be hashed: all of the object, or what lies between two of its offsets *)
Ranges == {r \in ({0, 1, 4, 8} \X {size, size - 1, size - 4, 8, 16}) : r[1] + (IF shape = << >> THEN 0 ELSE 1) <= r[2] /\ r[2] <= size /\ (r[1]..(r[2] - 1)) \subseteq def}
Hash == /\ Running /\ \E f \in Fns : \E r \in Ranges : Do(Op("h", "", r[1], r[2] - r[1], f)) /\ UNCHANGED << def, live >>
(* the same call once more, most often after something was written *)
Again == /\ Running /\ \E i \in 1..Len(ops) : ops[i].o = "h" /\ i < Len(ops) /\ Do(Op("r", "", ops[i].at, i, ""))
         /\ UNCHANGED << def, live >>
Begin == Running /\ ~ live /\ live' = TRUE /\ UNCHANGED def /\ Do(Op("i", "", 0, 0, ""))
Update == Running /\ live /\ UNCHANGED << def, live >> /\ \E r \in Ranges : Do(Op("u", "", r[1], r[2] - r[1], ""))
Finish == Running /\ live /\ live' = FALSE /\ UNCHANGED def /\ \E k \in {"f", "g"} : Do(Op(k, "", 0, 0, ""))

Emit == /\ phase = "run" /\ Len(ops) = Enough
        /\ PrintT("PROG " \o ToJson([kind |-> kind, layout |-> layout, size |-> size, ops |-> ops]))
        /\ phase' = "end" /\ UNCHANGED << shape, kind, layout, size, def, live, ops >>
Next == Member \/ Grow \/ Ready \/ StoreOne \/ FillSome \/ StoreAll \/ Clear \/ Hash \/ Again \/ Begin \/ Update \/ Finish \/ Emit
Spec == Init /\ [][Next]_gvars
=============================================================================
