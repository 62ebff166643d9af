-------------------------------- MODULE Arith --------------------------------
(* The ways the library multiplies two words into a double word, and adds   *)
(* with carry, depending on what the toolchain offers.  Words have 2*H bits *)
(* here instead of 64; the code is the same for every H.                    *)
(*                                                                          *)
(*   wide      a double-word product in one operation (128-bit type,        *)
(*             _umul128)                                                    *)
(*   high      the upper word by one operation (__umulh, Elbrus), the lower *)
(*             one by an ordinary multiplication                            *)
(*   parts     four products of half words, summed by four additions with   *)
(*             carry, themselves done one of these ways:                    *)
(*     native    an operation that adds with carry (_addcarry_u64,          *)
(*               __builtin_addcll, Elbrus)                                  *)
(*     compare   an ordinary addition, the carry found by comparison        *)
(*     halves    two additions of half words with carry (_addcarry_u32)     *)
EXTENDS Integers
CONSTANTS H, Flaw          \* Flaw: "none", or the mistake of a negative model
HB == 2 ^ H                \* values of a half word
WB == HB * HB              \* values of a word
Word == 0..(WB - 1)
Ways == [by : {"wide", "high"}, add : {"none"}] \cup [by : {"parts"}, add : {"native", "compare", "halves"}]

VARIABLES a, b, way, pc, ll, lh, hl, hh, l, h, cy
vars == << a, b, way, pc, ll, lh, hl, hh, l, h, cy >>

(* ---- addition: [sum, carry] of x + y + c, as each way computes it ------ *)
Native(x, y, c) == [sum |-> (x + y + c) % WB, carry |-> (x + y + c) \div WB]
Compare(x, y, c) ==
  LET s == (x + y + c) % WB
      less == IF Flaw = "le" THEN s <= y ELSE s < y
  IN  [sum |-> s, carry |-> IF less \/ (Flaw # "nocarry" /\ c = 1 /\ s = y) THEN 1 ELSE 0]
Halves(x, y, c) ==
  LET lo == (x % HB) + (y % HB) + c
      hi == (x \div HB) + (y \div HB) + (IF Flaw = "drop" THEN 0 ELSE lo \div HB)
  IN  [sum |-> (lo % HB) + HB * (hi % HB), carry |-> hi \div HB]
Add(w, x, y, c) == CASE w = "native" -> Native(x, y, c) [] w = "compare" -> Compare(x, y, c) [] w = "halves" -> Halves(x, y, c)

Init == /\ a \in Word /\ b \in Word /\ way \in Ways /\ pc = "start"
        /\ ll = 0 /\ lh = 0 /\ hl = 0 /\ hh = 0 /\ l = 0 /\ h = 0 /\ cy = 0

Whole == /\ pc = "start" /\ way.by # "parts"
         /\ IF way.by = "wide" THEN h' = (a * b) \div WB /\ l' = (a * b) % WB
            ELSE h' = (a * b) \div WB /\ l' = (a % WB) * (b % WB) % WB
         /\ pc' = "done" /\ UNCHANGED << a, b, way, ll, lh, hl, hh, cy >>
Products == /\ pc = "start" /\ way.by = "parts"
            /\ ll' = (a % HB) * (b % HB) /\ lh' = (a \div HB) * (b % HB)
            /\ hl' = (a % HB) * (b \div HB) /\ hh' = (a \div HB) * (b \div HB)
            /\ pc' = "low1" /\ UNCHANGED << a, b, way, l, h, cy >>
Low(now, then, x, y) == /\ pc = now
                        /\ LET s == Add(way.add, x, (y * HB) % WB, 0) IN l' = s.sum /\ cy' = s.carry
                        /\ pc' = then /\ UNCHANGED << a, b, way, ll, lh, hl, hh, h >>
High(now, then, x, y) == /\ pc = now
                         /\ h' = Add(way.add, x, y \div HB, cy).sum
                         /\ pc' = then /\ UNCHANGED << a, b, way, ll, lh, hl, hh, l, cy >>
Next == Whole \/ Products \/ Low("low1", "high1", ll, lh) \/ High("high1", "low2", hh, lh)
        \/ Low("low2", "high2", l, hl) \/ High("high2", "done", h, hl)
Spec == Init /\ [][Next]_vars

Exact == pc = "done" => h * WB + l = a * b
(* no addition but the last may lose anything: what carries over is 0 or 1 *)
Sane == cy \in {0, 1} /\ l \in Word /\ h \in Word
(* every way of adding agrees, carry included, in every use (also chained)  *)
ASSUME Flaw # "none" \/ \A x \in Word, y \in Word, c \in {0, 1} : Compare(x, y, c) = Native(x, y, c) /\ Halves(x, y, c) = Native(x, y, c)

(* ---- masks: what `len & ~15ul' keeps where long is narrower than size_t - *)
(* L and S: the bits of long and of size_t; Q: the low bits to clear         *)
Mask(L, Q) == 2 ^ L - 2 ^ Q
RECURSIVE And(_, _)
And(x, y) == IF x = 0 \/ y = 0 THEN 0 ELSE (x % 2) * (y % 2) + 2 * And(x \div 2, y \div 2)
ASSUME \A len \in 0..255 : And(len, Mask(8, 2)) = len - (len % 4)      \* mask as wide as the length
ASSUME \E len \in 0..255 : And(len, Mask(4, 2)) # len - (len % 4)      \* a 32-bit long: the defect that was repaired
ASSUME \A len \in 0..15 : And(len, Mask(4, 2)) = len - (len % 4)       \* not to be seen below 2^L
=============================================================================
