--------------------------------- MODULE Cpu ---------------------------------
(* What an x86 processor reports about itself, and what that entitles the   *)
(* library to execute.                                                      *)
(*                                                                          *)
(* A processor is a record [max, aes, osxsave, avx, avx2, noise]: its       *)
(* highest basic CPUID leaf, the four flags that matter and a pattern for   *)
(* every other bit of every register ("zero", "ones", "mixed").  A leaf     *)
(* beyond the highest one does not fail on real processors, it returns      *)
(* data of another leaf: here all ones, so that believing it is fatal.      *)
EXTENDS Integers, Sequences

MaxLeaves == {0, 1, 2, 6, 7, 13}
Noises == {"zero", "ones", "mixed"}
Cpus == [max : MaxLeaves, aes : BOOLEAN, osxsave : BOOLEAN, avx : BOOLEAN, avx2 : BOOLEAN, noise : Noises]

Bit(n) == 2 ^ n

(* ---------------- the declarative side: what it can execute ------------- *)
HasAes(c)  == c.max >= 1 /\ c.aes
HasAvx(c)  == HasAes(c) /\ c.osxsave /\ c.avx
HasAvx2(c) == HasAvx(c) /\ c.max >= 7 /\ c.avx2

Accelerated == {"aes", "avx", "avx2"}
(* the accelerated variants the processor's flags support *)
Supported(c) == (IF HasAes(c) THEN {"aes"} ELSE {}) \cup (IF HasAvx(c) THEN {"avx"} ELSE {})
                \cup (IF HasAvx2(c) THEN {"avx2"} ELSE {})

(* ------------------ the registers CPUID fills in, as <<lo, hi>> --------- *)
NoiseHalf(c) == CASE c.noise = "zero" -> 0 [] c.noise = "ones" -> 65535 [] c.noise = "mixed" -> 42405
Noise32(c) == << NoiseHalf(c), NoiseHalf(c) >>
Ones32 == << 65535, 65535 >>

SetBit(h, n, v) == LET old == (h \div Bit(n)) % 2 IN h + (IF v THEN 1 - old ELSE - old) * Bit(n)

(* leaf 1: ECX bits 25 (AES), 27 (OSXSAVE), 28 (AVX) *)
Leaf1Ecx(c) == << NoiseHalf(c), SetBit(SetBit(SetBit(NoiseHalf(c), 9, c.aes), 11, c.osxsave), 12, c.avx) >>
(* leaf 7, subleaf 0: EBX bit 5 (AVX2) *)
Leaf7Ebx(c) == << SetBit(NoiseHalf(c), 5, c.avx2), NoiseHalf(c) >>
(* in other registers and subleaves the same bits say the opposite *)
Leaf1Other(c) == << NoiseHalf(c), SetBit(SetBit(SetBit(NoiseHalf(c), 9, ~ c.aes), 11, ~ c.osxsave), 12, ~ c.avx) >>
Leaf7Other(c) == << SetBit(NoiseHalf(c), 5, ~ c.avx2), NoiseHalf(c) >>

Any == << 65535, 65535 >>
Regs(l, s, a, b, cx, d) == [leaf |-> l, sub |-> s, a |-> a, b |-> b, c |-> cx, d |-> d]
(* the table a processor answers from: the first entry matching leaf and subleaf *)
Table(c) ==
  << Regs(<<0, 0>>, Any, << c.max, 0 >>, << 30062, 18245 >>, << 27758, 25972 >>, << 28265, 18789 >>) >>
  \o (IF c.max >= 1 THEN << Regs(<<1, 0>>, Any, Leaf1Other(c), Leaf1Other(c), Leaf1Ecx(c), Leaf1Other(c)) >> ELSE << >>)
  \o (IF c.max >= 7 THEN << Regs(<<7, 0>>, <<0, 0>>, << 1, 0 >>, Leaf7Ebx(c), Leaf7Other(c), Leaf7Other(c)),
                            Regs(<<7, 0>>, Any, Leaf7Other(c), Leaf7Other(c), Leaf7Other(c), Leaf7Other(c)) >> ELSE << >>)
  \o << Regs(Any, Any, Ones32, Ones32, Ones32, Ones32) >>

Matches(e, leaf, sub) == e.leaf \in {leaf, Any} /\ e.sub \in {sub, Any}
Cpuid(c, leaf, sub) ==
  LET t == Table(c) IN t[CHOOSE i \in 1..Len(t) : Matches(t[i], leaf, sub) /\ \A j \in 1..(i - 1) : ~ Matches(t[j], leaf, sub)]
=============================================================================
