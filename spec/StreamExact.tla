------------------------------ MODULE StreamExact ----------------------------
(* Streams, bit exact: a live context is [s: absorbed state, rest: the      *)
(* bytes not yet absorbed, total: their number as a word, ghost: the whole  *)
(* message while it is short].  Operations are records                      *)
(*   i: init(c, x, y)   u: update(c, m)   k: copy(c -> d)                   *)
(*   f: final(c), 64 bit   g: final(c), 128 bit                             *)
(*   w: the memory of c, if it is not in use, is overwritten                *)
EXTENDS T1ha2

NoCtx == [live |-> FALSE]
GhostMax == 160

Bytes(m, o, n) == [i \in 1..n |-> MsgByte(m, o + i - 1)]
Explicit(b) == [g |-> "x", s |-> 0, n |-> Len(b), b |-> b]

Started(x, y) == [live |-> TRUE, s |-> StreamInit(x, y), rest |-> << >>, total |-> W0,
                  x |-> x, y |-> y, ghost |-> << >>, full |-> TRUE]

Fed(c, m) ==
  LET have == Len(c.rest)
      n == m.n
      total == WAdd(c.total, WNat(n))
      keep == c.full /\ Len(c.ghost) + n <= GhostMax
      gh == IF keep THEN c.ghost \o Bytes(m, 0, n) ELSE << >>
  IN  IF have + n < 32
        THEN [c EXCEPT !.rest = @ \o Bytes(m, 0, n), !.total = total, !.ghost = gh, !.full = keep]
        ELSE LET first == IF have > 0 THEN 32 - have ELSE 0
                 s1 == IF have > 0 THEN Absorb(c.s, BlockWords(Explicit(c.rest \o Bytes(m, 0, first)), 0)) ELSE c.s
                 nb == (n - first) \div 32
                 s2 == AbsorbAll(s1, m, first, nb)
                 o == first + 32 * nb
             IN  [c EXCEPT !.s = s2, !.rest = Bytes(m, o, n - o), !.total = total, !.ghost = gh, !.full = keep]

(* << returned, stored or << >> >> *)
Closed(c, kind) == IF kind = "f" THEN << StreamClose64(c.s, c.rest, c.total), << >> >>
                                 ELSE StreamClose128(c.s, c.rest, c.total)

(* the same from the whole message *)
Whole(c, kind) == IF kind = "f" THEN << T1ha2Stream64(Explicit(c.ghost), c.x, c.y), << >> >>
                                ELSE T1ha2Stream128(Explicit(c.ghost), c.x, c.y)

Enabled(ctx, op) == CASE op.o = "i" -> TRUE
                      [] op.o = "w" -> ~ ctx[op.c].live
                      [] op.o = "k" -> ctx[op.c].live /\ op.c # op.d
                      [] OTHER -> ctx[op.c].live
Step(ctx, op) == CASE op.o = "i" -> [ctx EXCEPT ![op.c] = Started(op.x, op.y)]
                   [] op.o = "u" -> [ctx EXCEPT ![op.c] = Fed(@, op.m)]
                   [] op.o = "k" -> [ctx EXCEPT ![op.d] = ctx[op.c]]
                   [] op.o = "w" -> ctx
                   [] op.o \in {"f", "g"} -> [ctx EXCEPT ![op.c] = NoCtx]
=============================================================================
