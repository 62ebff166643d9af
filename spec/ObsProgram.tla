------------------------------ MODULE ObsProgram -----------------------------
(* Validates what programs compiled together with the library computed.     *)
(* Each line is one program {id, size, ops, r}: the operations in the order *)
(* they are written,                                                        *)
(*   s: store of the k lowest bytes of v at at                              *)
(*   l: n such stores one behind the other, of v, v + w, v + 2w, ...        *)
(*   z: all bytes become v[1]                                               *)
(*   h: hash by f of the n bytes at at, seed x                              *)
(*   i, u, f, g: the stream is started, fed, finalised                      *)
(* and r the results in their order.  A hash is that of the bytes at the    *)
(* moment of the call.                                                      *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils, StreamExact
A == INSTANCE Api

Progs == ndJsonDeserialize(IOEnv.OBS)

VARIABLES h, at, done, mem, ctx, bad
ovars == << h, at, done, mem, ctx, bad >>

Op == Progs[h].ops[at + 1]

ByteOf(v, i) == LET limb == v[(i \div 2) + 1] IN IF i % 2 = 0 THEN limb % 256 ELSE limb \div 256
RECURSIVE Times(_, _)
Times(v, n) == IF n = 0 THEN W0 ELSE WAdd(Times(v, n - 1), v)
Put(m, o, b) == [i \in 1..Len(m) |-> IF i > o /\ i <= o + Len(b) THEN b[i - o] ELSE m[i]]
Element(v, k) == [i \in 1..k |-> ByteOf(v, i - 1)]
RECURSIVE Elements(_, _, _, _)
Elements(v, w, k, n) == IF n = 0 THEN << >> ELSE Elements(v, w, k, n - 1) \o Element(WAdd(v, Times(w, n - 1)), k)

Stored == CASE Op.o = "s" -> Put(mem, Op.at, Element(Op.v, Op.k))
            [] Op.o = "l" -> Put(mem, Op.at, Elements(Op.v, Op.w, Op.k, Op.n))
            [] Op.o = "z" -> [i \in 1..Len(mem) |-> Op.v[1]]
            [] OTHER -> mem
Piece == Explicit(SubSeq(mem, Op.at + 1, Op.at + Op.n))
Result == CASE Op.o = "h" -> A!Value(Op.f, Piece, Op.x, W0)
            [] OTHER -> Closed(ctx, Op.o)
Gives == Op.o \in {"h", "f", "g"}
Matches == Gives => done < Len(Progs[h].r) /\ Result = << Progs[h].r[done + 1][1], Progs[h].r[done + 1][2] >>

Init == h \in 1..Len(Progs) /\ at = 0 /\ done = 0 /\ bad = 0 /\ ctx = NoCtx
        /\ mem = [i \in 1..Progs[h].size |-> 0]
More == at < Len(Progs[h].ops)
Move(b) == /\ at' = at + 1 /\ done' = (IF Gives THEN done + 1 ELSE done) /\ bad' = bad + b /\ UNCHANGED h
           /\ mem' = Stored
           /\ ctx' = (CASE Op.o = "i" -> Started(Op.x, Op.y)
                        [] Op.o = "u" -> Fed(ctx, Piece)
                        [] Op.o \in {"f", "g"} -> NoCtx
                        [] OTHER -> ctx)
Accept == More /\ Matches /\ Move(0)
Reject == More /\ ~ Matches /\ PrintT(<< "REJECT", Progs[h].id, at + 1, Result >>) /\ Move(1)
Next == Accept \/ Reject
Spec == Init /\ [][Next]_ovars
AllConsumed == TLCGet("stats").distinct = FoldLeft(LAMBDA acc, x : acc + Len(x.ops) + 1, 0, Progs)
=============================================================================
