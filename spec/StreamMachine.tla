----------------------------- MODULE StreamMachine ---------------------------
(* The streaming state machine as the library implements it: a context is   *)
(* memory - absorbed state, a buffer of Block bytes of which `part' are     *)
(* used, and the running total; update fills up the buffer, absorbs it when *)
(* full, absorbs further whole blocks straight from the piece and keeps the *)
(* remainder; final feeds the length word through update and closes what    *)
(* is left.  Bytes are symbols, the absorbed state is the list of absorbed  *)
(* blocks (absorbing is injective as far as this model can know), memory of *)
(* a dead context is arbitrary.                                             *)
(*                                                                          *)
(* Checked: it refines StreamAbs, i.e. how the bytes were cut into pieces,  *)
(* which context they went through and what its memory held before never    *)
(* shows in a result.                                                       *)
EXTENDS Integers, Sequences, SequencesExt, TLC

CONSTANTS Ctx, Seeds, MaxLen, Lens, Flavours,
          Block,          \* block size in bytes (32 in the code)
          Pad             \* length of the length word (8 in the code)

VARIABLES mem,            \* context -> its memory
          ghost,          \* context -> << >> or << seed, bytes fed >>
          last
vars == << mem, ghost, last >>

(* a piece of n bytes fed after k others: all bytes differ, by flavour too *)
Piece(k, n, f) == [i \in 1..n |-> 100 * f + k + i]

(* the symbols of the length word for a total *)
PadBytes(total) == [i \in 1..Pad |-> 1000 * i + total]

Garbage == [abs |-> << -1, << >> >>, buf |-> [i \in 1..Block |-> -7], part |-> Block - 1, total |-> 5]

Blank(sd, old) == [abs |-> << sd, << >> >>, buf |-> old.buf, part |-> 0, total |-> 0]

Put(buf, at, bytes) == [i \in 1..Block |-> IF i > at /\ i <= at + Len(bytes) THEN bytes[i - at] ELSE buf[i]]

AbsorbBuf(abs, blk) == << abs[1], Append(abs[2], blk) >>

(* whole blocks of a sequence *)
RECURSIVE AbsorbFrom(_, _)
AbsorbFrom(abs, p) == IF Len(p) < Block THEN abs
                      ELSE AbsorbFrom(AbsorbBuf(abs, SubSeq(p, 1, Block)), SubSeq(p, Block + 1, Len(p)))

(* t1ha2_update *)
Updated(m, p) ==
  LET total == m.total + Len(p)
      left == Block - m.part
  IN  IF m.part > 0 /\ Len(p) < left
        THEN [m EXCEPT !.total = total, !.buf = Put(m.buf, m.part, p), !.part = m.part + Len(p)]
        ELSE LET chunk == IF m.part > 0 THEN left ELSE 0
                 buf1 == IF m.part > 0 THEN Put(m.buf, m.part, SubSeq(p, 1, chunk)) ELSE m.buf
                 abs1 == IF m.part > 0 THEN AbsorbBuf(m.abs, buf1) ELSE m.abs
                 rest == SubSeq(p, chunk + 1, Len(p))
                 abs2 == AbsorbFrom(abs1, rest)
                 tail == SubSeq(rest, Len(rest) - (Len(rest) % Block) + 1, Len(rest))
             IN  [abs |-> abs2, buf |-> Put(buf1, 0, tail), part |-> Len(tail), total |-> total]

(* t1ha2_final: the value is the kind, the absorbed blocks and the used     *)
(* part of the buffer after feeding the length word                         *)
Closing(m, kind) == LET u == Updated(m, PadBytes(m.total))
                    IN  << kind, u.abs[1], u.abs[2], SubSeq(u.buf, 1, u.part) >>

(* what it should be: cut the padded message in blocks *)
Canonical(sd, bytes, kind) ==
  LET all == bytes \o PadBytes(Len(bytes))
      n == Len(all) \div Block
  IN  << kind, sd, [i \in 1..n |-> SubSeq(all, Block * (i - 1) + 1, Block * i)], SubSeq(all, Block * n + 1, Len(all)) >>

Live(c) == ghost[c] # << >>

Init == mem = [c \in Ctx |-> Garbage] /\ ghost = [c \in Ctx |-> << >>] /\ last = << >>

Start(c, sd) == /\ mem' = [mem EXCEPT ![c] = Blank(sd, @)]
                /\ ghost' = [ghost EXCEPT ![c] = << sd, << >> >>]
                /\ last' = << >>
Feed(c, p) == /\ ghost[c] # << >> /\ Len(ghost[c][2]) + Len(p) <= MaxLen
              /\ mem' = [mem EXCEPT ![c] = Updated(@, p)]
              /\ ghost' = [ghost EXCEPT ![c] = << @[1], @[2] \o p >>]
              /\ last' = << >>
Copy(c, d) == /\ ghost[c] # << >> /\ c # d
              /\ mem' = [mem EXCEPT ![d] = mem[c]]
              /\ ghost' = [ghost EXCEPT ![d] = ghost[c]]
              /\ last' = << >>
Finish(c, k) == /\ ghost[c] # << >>
                /\ last' = Closing(mem[c], k)
                /\ mem' = [mem EXCEPT ![c] = Garbage]      \* it may be reused for anything
                /\ ghost' = [ghost EXCEPT ![c] = << >>]
Next == \E c \in Ctx : \/ \E sd \in Seeds : Start(c, sd)
                       \/ \E n \in Lens, f \in Flavours :
                                Live(c) /\ Feed(c, Piece(Len(ghost[c][2]), n, f))
                       \/ \E d \in Ctx : Copy(c, d)
                       \/ \E k \in {64, 128} : Finish(c, k)
Spec == Init /\ [][Next]_vars

(* ---------------------------- invariants -------------------------------- *)
Flat(blocks) == FoldLeft(LAMBDA acc, b : acc \o b, << >>, blocks)
ContentInv == \A c \in Ctx : Live(c) =>
                 /\ mem[c].abs[1] = ghost[c][1]
                 /\ Flat(mem[c].abs[2]) \o SubSeq(mem[c].buf, 1, mem[c].part) = ghost[c][2]
                 /\ mem[c].total = Len(ghost[c][2])
                 /\ mem[c].part < Block
                 /\ \A i \in 1..Len(mem[c].abs[2]) : Len(mem[c].abs[2][i]) = Block
Abs == INSTANCE StreamAbs WITH view <- ghost, H <- Canonical
Refines == Abs!ASpec
=============================================================================
