------------------------------- MODULE LongCheck -----------------------------
(* Long agrees with the definitions the published values were checked       *)
(* against, where both can be evaluated: shorter messages.                *)
EXTENDS Integers, Sequences, TLC, IOUtils
LOCAL INSTANCE Api
L == INSTANCE Long
VARIABLES vFn, vK, verdict
vars == << vFn, vK, verdict >>
(* lengths that take every combination of tail bits, and some of whole periods *)
Ks == IF IOEnv.DEPTH = "deep" THEN (600..855) \cup {1048576 + 17, 1048576 + 95, 1048576 + 112}
      ELSE {600 + 3 * i : i \in 0..42}
N == << vK % 65536, vK \div 65536, 0, 0 >>
X == << 4660, 43981, 65535, 32769 >>
Y == << 1, 2, 61680, 4095 >>
Init == vFn \in HashFns /\ vK \in Ks /\ verdict = "none"
Compare == /\ verdict = "none"
           /\ verdict' = IF Value(vFn, [g |-> "r", s |-> 5, n |-> vK, b |-> <<>>], X, Y) = L!LongValue(vFn, 5, 0, N, X, Y)
                           THEN "same" ELSE "different"
           /\ UNCHANGED << vFn, vK >>
Spec == Init /\ [][Compare]_vars
Agree == verdict # "different"
=============================================================================
