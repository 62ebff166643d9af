------------------------------ MODULE Reentrancy -----------------------------
(* Hash calls as activations: each thread has a stack of them, since a      *)
(* signal handler may hash while a call is under way, at any step of it;    *)
(* between calls the callers change the bytes they own.  The library is     *)
(* specified to keep everything a call works on in its activation           *)
(* (Static = "none").  The other values of Static are ways to keep          *)
(* something outside it; TLC shows a history that tells each from "none",   *)
(* and these are the circumstances the real code is put into:               *)
(*   scratch   intermediate state in static memory       (interruption)     *)
(*   memo      last address and result remembered        (call history)     *)
(*   lazy      a table filled on first use, flag first   (first call)       *)
(*   inplace   input swapped in place and swapped back   (another reader)   *)
(*   count     something changes after so many calls     (many calls)       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils

Static == IOEnv.STATIC
Threads == {1, 2}
Addrs == {1, 2}
Contents == {0, 1}
MaxDepth == 2
MaxCalls == 4

VARIABLES stack,    \* thread -> << [addr, want, pc, acc, fills] >>
          mem,      \* address -> content, as the library may leave it
          own,      \* address -> content the caller put there
          static,   \* [scratch, memoAddr, memoRes, flag, ready, calls]
          wrong     \* a call returned something else than its content hashes to
vars == << stack, mem, own, static, wrong >>

F(content) == 10 + content
Fresh == [scratch |-> 0, memoAddr |-> 0, memoRes |-> 0, flag |-> FALSE, ready |-> FALSE, calls |-> 0]

Init == /\ stack = [t \in Threads |-> << >>]
        /\ mem \in [Addrs -> Contents]
        /\ own = mem
        /\ static = Fresh
        /\ wrong = FALSE

Top(t) == stack[t][Len(stack[t])]
Live(a) == \E t \in Threads : \E i \in 1..Len(stack[t]) : stack[t][i].addr = a
SetTop(t, r) == [stack EXCEPT ![t] = [@ EXCEPT ![Len(@)] = r]]
Pop(t) == [stack EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]

(* a call begins: at the bottom, or interrupting the one under way *)
Begin(t) ==
  /\ Len(stack[t]) < MaxDepth /\ static.calls < MaxCalls
  /\ \E a \in Addrs :
       stack' = [stack EXCEPT ![t] = Append(@, [addr |-> a, want |-> own[a], pc |-> 0, acc |-> 0, fills |-> FALSE])]
  /\ static' = [static EXCEPT !.calls = @ + 1]
  /\ UNCHANGED << mem, own, wrong >>

(* first step: take the input *)
Load(t) ==
  /\ stack[t] # << >> /\ Top(t).pc = 0
  /\ LET r == Top(t) IN
     \/ /\ Static = "memo" /\ static.memoAddr = r.addr
        /\ stack' = SetTop(t, [r EXCEPT !.pc = 3, !.acc = static.memoRes])
        /\ UNCHANGED << static, mem >>
     \/ /\ ~ (Static = "memo" /\ static.memoAddr = r.addr)
        /\ stack' = SetTop(t, [r EXCEPT !.pc = 1, !.acc = mem[r.addr], !.fills = ~ static.flag])
        /\ static' = IF Static = "scratch" THEN [static EXCEPT !.scratch = mem[r.addr]]
                     ELSE IF Static = "lazy" THEN [static EXCEPT !.flag = TRUE] ELSE static
        /\ mem' = IF Static = "inplace" THEN [mem EXCEPT ![r.addr] = 1 - @] ELSE mem
  /\ UNCHANGED << own, wrong >>

(* second step: mix *)
Mix(t) ==
  /\ stack[t] # << >> /\ Top(t).pc = 1
  /\ LET r == Top(t)
         v == IF Static = "scratch" THEN static.scratch ELSE r.acc
         \* lazily filled table: who found the flag down fills it now, the others trust it
         trusts == Static = "lazy" /\ ~ r.fills
     IN  /\ stack' = SetTop(t, [r EXCEPT !.pc = 2, !.acc = IF trusts /\ ~ static.ready THEN 0 ELSE F(v)])
         /\ static' = IF Static = "lazy" /\ r.fills THEN [static EXCEPT !.ready = TRUE] ELSE static
  /\ UNCHANGED << mem, own, wrong >>

(* third step: tidy up *)
Tidy(t) ==
  /\ stack[t] # << >> /\ Top(t).pc = 2
  /\ LET r == Top(t) IN
     /\ static' = IF Static = "memo" THEN [static EXCEPT !.memoAddr = r.addr, !.memoRes = r.acc] ELSE static
     /\ mem' = IF Static = "inplace" THEN [mem EXCEPT ![r.addr] = 1 - @] ELSE mem
     /\ stack' = SetTop(t, [r EXCEPT !.pc = 3])
  /\ UNCHANGED << own, wrong >>

Return(t) ==
  /\ stack[t] # << >> /\ Top(t).pc = 3
  /\ LET r == Top(t)
         res == IF Static = "count" /\ static.calls = MaxCalls THEN r.acc + 1 ELSE r.acc
     IN  wrong' = (wrong \/ res # F(r.want))
  /\ stack' = Pop(t)
  /\ UNCHANGED << static, mem, own >>

(* a caller changes bytes nobody is hashing *)
Write == /\ \E a \in Addrs : /\ ~ Live(a)
                             /\ mem' = [mem EXCEPT ![a] = 1 - @] /\ own' = [own EXCEPT ![a] = 1 - @]
         /\ UNCHANGED << stack, static, wrong >>

Next == Write \/ \E t \in Threads : Begin(t) \/ Load(t) \/ Mix(t) \/ Tidy(t) \/ Return(t)
Spec == Init /\ [][Next]_vars

ResultsRight == ~ wrong
(* bytes handed in read as the caller wrote them, at every moment *)
InputKept == mem = own
(* the model's point: with Static = "none", only the calls' number is static *)
NothingKept == Static = "none" => [static EXCEPT !.calls = 0] = Fresh
=============================================================================
