------------------------------ MODULE BuildVals ------------------------------
(* The values a program that uses every public name must see, by name and   *)
(* message length; messages and seeds as in the program the check writes.   *)
EXTENDS Build, TLC
LOCAL INSTANCE Api
Range(s) == {s[i] : i \in 1..Len(s)}
Msg(n) == [g |-> "p", s |-> 7, n |-> n, b |-> << >>]
Seed  == << 57073, 39612, 22136, 4660 >>       \* 0x123456789abcdef1
Seed2 == << 4660, 22136, 39612, 57073 >>
Lens == (0..34) \cup {40, 47, 63, 64, 65, 100, 127, 128, 129, 159, 200, 240}
Fns == {"2a64", "2a128", "2s64", "2s128", "1le", "1be", "0le", "0be", "aes", "avx", "avx2"}
Known == [f \in Fns |-> [n \in Lens |-> Value(f, Msg(n), Seed, Seed2)]]

(* names that compute values -> function; final stands for the 64-bit,      *)
(* final128 for the 128-bit result of a stream                              *)
Fn(o, k) ==
  CASE k = "t1ha2_atonce" -> "2a64" [] k = "t1ha2_atonce128" -> "2a128"
    [] k = "t1ha2_final" -> "2s64" [] k = "t1ha2_final128" -> "2s128"
    [] k = "t1ha1_le" -> "1le" [] k = "t1ha1_be" -> "1be"
    [] k = "t1ha0_32le" -> "0le" [] k = "t1ha0_32be" -> "0be"
    [] k = "t1ha0_ia32aes_noavx" -> "aes" [] k = "t1ha0_ia32aes_avx" -> "avx" [] k = "t1ha0_ia32aes_avx2" -> "avx2"
    [] k \in {"t1ha0", "t1ha0_resolve"} -> Choice(o.build, o.cpu)
    [] OTHER -> "none"
(* what this machine can run of a set of names *)
NeedsOf(k) == CASE k \in {"t1ha0_ia32aes_noavx", "t1ha_selfcheck__t1ha0_ia32aes_noavx"} -> {"aes"}
                [] k \in {"t1ha0_ia32aes_avx", "t1ha_selfcheck__t1ha0_ia32aes_avx"} -> {"avx"}
                [] k \in {"t1ha0_ia32aes_avx2", "t1ha_selfcheck__t1ha0_ia32aes_avx2"} -> {"avx2"}
                [] OTHER -> {}
Runnable(o, S) == {k \in S : NeedsOf(k) \subseteq Range(o.host)}
ValueNames(o) == Runnable(o, (HashNames(o.build) \ {"t1ha2_init", "t1ha2_update"})
                             \cup (IF Enabled(o.build, 2) THEN {"t1ha2_final128"} ELSE {}))
=============================================================================
