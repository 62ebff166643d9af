--------------------------------- MODULE Alias -------------------------------
(* Why a hash function optimised together with its user must read the       *)
(* message in a way that may alias any type.                                *)
(*                                                                          *)
(* A program writes one object by various types and has it hashed in        *)
(* between (a read of the whole object by type ReadAs).  An optimiser that  *)
(* sees both sides may exchange a write and a read next to each other when  *)
(* their types say that they cannot concern the same object, and may drop   *)
(* a write that no such read follows before the next write.  Char may       *)
(* concern any object.  Whatever it does, each read must give the value of  *)
(* the last write before it in the program as written.                      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Types, ReadAs, MaxLen

VARIABLES code, phase, next
vars == << code, phase, next >>

Write(t, v) == [k |-> "w", t |-> t, v |-> v, want |-> 0]
Read(v)     == [k |-> "r", t |-> ReadAs, v |-> 0, want |-> v]

MayAlias(a, b) == a.t = b.t \/ a.t = "char" \/ b.t = "char"

LastWrite(c, i) == LET W == {j \in 1..(i - 1) : c[j].k = "w"}
                   IN  IF W = {} THEN 0 ELSE c[CHOOSE j \in W : \A k \in W : k <= j].v

Init == code = << >> /\ phase = "written" /\ next = 1
(* the programmer *)
Compose == /\ phase = "written" /\ Len(code) < MaxLen
           /\ \/ \E t \in Types : code' = Append(code, Write(t, next)) /\ next' = next + 1
              \/ code' = Append(code, Read(LastWrite(code, Len(code) + 1))) /\ UNCHANGED next
           /\ UNCHANGED phase
Compile == phase = "written" /\ phase' = "optimised" /\ UNCHANGED << code, next >>
(* the optimiser *)
Exchange == /\ phase = "optimised"
            /\ \E i \in 1..(Len(code) - 1) :
                 /\ code[i].k # code[i + 1].k /\ ~ MayAlias(code[i], code[i + 1])
                 /\ code' = [code EXCEPT ![i] = code[i + 1], ![i + 1] = code[i]]
            /\ UNCHANGED << phase, next >>
Dead(i) == /\ code[i].k = "w"
           /\ \A j \in (i + 1)..Len(code) :
                (code[j].k = "r" /\ MayAlias(code[i], code[j])) => \E l \in (i + 1)..(j - 1) : code[l].k = "w"
Drop == /\ phase = "optimised"
        /\ \E i \in 1..Len(code) : Dead(i) /\ code' = SubSeq(code, 1, i - 1) \o SubSeq(code, i + 1, Len(code))
        /\ UNCHANGED << phase, next >>
Next == Compose \/ Compile \/ Exchange \/ Drop
Spec == Init /\ [][Next]_vars

(* what is executed gives what was written *)
Faithful == \A i \in 1..Len(code) : code[i].k = "r" => LastWrite(code, i) = code[i].want
=============================================================================
