------------------------------- MODULE MemAccess -----------------------------
(* How the portable hashes read a message: which bytes of memory, in which  *)
(* units, under which build options - and what they make of them.           *)
(*                                                                          *)
(* A state is a call: build options, the message's address within a page,   *)
(* its length.  Memory is symbolic: the i-th message byte is i+1, every     *)
(* byte around it is Foreign.  Checked, for every call:                     *)
(*   InPages   all bytes read lie in pages the message occupies             *)
(*   Exact     with one-shot reading off, only message bytes are read       *)
(*   NoForeign no foreign byte survives in a word handed to the hash, and   *)
(*             the words are those of the message (placement independence)  *)
(*   Aligned   on machines that cannot read misaligned, every unit is       *)
(*             aligned to its size (64-bit ones on 32-bit x86 to 4)         *)
(*   Pairs     on machines that read single, but not paired words at any    *)
(*             address (32-bit ARM), 64-bit units are aligned to words      *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Page, MaxLen, Modes, OneShots, Wides,
          X86s,         \* is the machine a 32- or 64-bit x86?
          FixOneShot,   \* FALSE: as it was before commit b406e43
          FixAlign,     \* FALSE: as it was before commit d0729f6
          FixPairs      \* FALSE: as it was before commit 447f2c8

Foreign == -1
WordSizes == {4, 8}
Orders == {"le", "be"}

VARIABLES call
Calls == [mode : Modes, oneshot : OneShots, wide : Wides, x86 : X86s, w : WordSizes, order : Orders,
          swap : BOOLEAN,                      \* machine byte order differs from the hash's
          a : 0..(Page - 1), n : {0}]
Init == call \in Calls
Next == call.n < MaxLen /\ call' = [call EXCEPT !.n = @ + 1]
Spec == Init /\ [][Next]_call

(* alignment that counts as "aligned" *)
Align(c) == IF c.w = 8 /\ ~ c.wide /\ (c.x86 \/ ~ FixAlign) THEN 4 ELSE c.w
AlignedPath(c) == c.mode # "efficient" /\ c.a % Align(c) = 0
(* reading below the tail is compiled in *)
Underside(c) == c.oneshot /\ c.mode # "unable" /\ (c.w = 4 \/ c.wide)
(* one-shot reading of an aligned tail is compiled in *)
AlignedOneShot(c) == c.oneshot /\ (FixOneShot => c.w = 4 \/ c.wide)

(* a unit of reading: address relative to the page of the message, size *)
Unit(x, s) == << x, s >>
(* one word read at address x: a whole, or bytes where misaligned reads are impossible *)
WordUnits(c, x) == IF AlignedPath(c) \/ c.mode # "unable" THEN << Unit(x, c.w) >>
                   ELSE [i \in 1..c.w |-> Unit(x + i - 1, 1)]

(* the pieces of the byte-exact tail: p[0..s-1] as the switch reads it *)
ExactUnits(c, x, s) ==
  LET bytes == [i \in 1..s |-> Unit(x + i - 1, 1)]
      whole == AlignedPath(c) \/ c.mode = "efficient"
  IN  IF ~ whole \/ c.swap THEN bytes
      ELSE CASE s = 8 -> << Unit(x, 8) >>
             [] s \in 5..7 -> << Unit(x, 4) >> \o [i \in 1..(s - 4) |-> Unit(x + 3 + i, 1)]
             [] s = 4 -> << Unit(x, 4) >>
             [] s = 3 -> << Unit(x, 2), Unit(x + 2, 1) >>
             [] s = 2 -> << Unit(x, 2) >>
             [] OTHER -> bytes

Mem(c, x) == IF x >= c.a /\ x < c.a + c.n THEN x - c.a + 1 ELSE Foreign

(* a word as its bytes, least significant first, in the hash's byte order *)
Raw(c, x, s) == IF c.order = "le" THEN [i \in 1..s |-> Mem(c, x + i - 1)]
                                  ELSE [i \in 1..s |-> Mem(c, x + s - i)]
ShiftRight(v, k) == [i \in 1..Len(v) |-> IF i + k <= Len(v) THEN v[i + k] ELSE 0]
Mask(v, s) == [i \in 1..Len(v) |-> IF i <= s THEN v[i] ELSE 0]

(* the tail: s bytes (1..w) at x -> << units, value >> *)
TailRead(c, x, s) ==
  LET off == c.w - s
      fwd == << << Unit(x, c.w) >>,
                IF c.order = "le" THEN Mask(Raw(c, x, c.w), s) ELSE ShiftRight(Raw(c, x, c.w), off) >>
      below == << << Unit(x - off, c.w) >>,
                  IF c.order = "le" THEN ShiftRight(Raw(c, x - off, c.w), off) ELSE Mask(Raw(c, x - off, c.w), s) >>
      exact == << ExactUnits(c, x, s), [i \in 1..c.w |-> IF i <= s THEN Raw(c, x, s)[i] ELSE 0] >>
  IN  IF AlignedPath(c)
        THEN IF AlignedOneShot(c) THEN fwd ELSE exact
        ELSE IF Underside(c)
               THEN IF (x % Page) - (x % c.w) # 0 THEN below ELSE fwd     \* (Page - w) & x # 0
               ELSE exact

(* the whole call: blocks of four words while more than one block, the rest  *)
(* in words, the last 1..w bytes as the tail                                 *)
Words(c) == IF c.n = 0 THEN 0 ELSE (c.n - 1) \div c.w       \* whole words before the tail
HasTail(c) == c.n > 0 /\ ~ (c.n > 4 * c.w /\ c.n % (4 * c.w) = 0)
WholeWords(c) == IF HasTail(c) THEN Words(c) ELSE c.n \div c.w
TailAt(c) == c.a + c.w * Words(c)
TailSize(c) == c.n - c.w * Words(c)
Read(c) ==  UNION { { u : u \in { WordUnits(c, c.a + c.w * (k - 1))[i] :
                                    i \in 1..Len(WordUnits(c, c.a + c.w * (k - 1))) } } : k \in 1..WholeWords(c) }
            \cup (IF HasTail(c) THEN { TailRead(c, TailAt(c), TailSize(c))[1][i] :
                                         i \in 1..Len(TailRead(c, TailAt(c), TailSize(c))[1]) } ELSE {})

(* a 64-bit unit whose alignment is unknown is two words for the compiler,   *)
(* unless it is told to read it directly: then it may use paired loads      *)
TwoWords(c) == FixPairs /\ c.mode = "efficient" /\ ~ c.wide /\ ~ c.x86
Units(c) == UNION { IF u[2] = 8 /\ TwoWords(c) THEN { Unit(u[1], 4), Unit(u[1] + 4, 4) } ELSE { u } : u \in Read(c) }

BytesOf(u) == u[1] .. (u[1] + u[2] - 1)
PageOf(x) == x \div Page        \* x may be below the page: \div rounds down
MsgPages(c) == { PageOf(x) : x \in c.a .. (c.a + c.n - 1) }

InPages == \A u \in Units(call) : \A x \in BytesOf(u) : PageOf(x) \in MsgPages(call)
Exact == ~ call.oneshot => \A u \in Units(call) : BytesOf(u) \subseteq call.a .. (call.a + call.n - 1)
NoForeign == HasTail(call) =>
  LET t == TailRead(call, TailAt(call), TailSize(call))[2]
      s == TailSize(call)
      first == call.n - s                       \* index of the tail's first byte, 0-based
  IN  \A i \in 1..call.w :
        t[i] = IF i > s THEN 0
               ELSE IF call.order = "le" THEN first + i ELSE first + s + 1 - i
AllRead == call.a .. (call.a + call.n - 1) \subseteq UNION { BytesOf(u) : u \in Units(call) }
Aligned == call.mode = "unable" =>
             \A u \in Units(call) : u[1] % (IF u[2] = 8 /\ call.x86 THEN Align(call) ELSE u[2]) = 0
Pairs == call.mode = "efficient" /\ ~ call.wide /\ ~ call.x86 =>
           \A u \in Units(call) : u[2] = 8 => u[1] % 4 = 0
=============================================================================
