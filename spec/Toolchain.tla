------------------------------ MODULE Toolchain ------------------------------
(* The toolchains and platforms the sources are written for beyond the ones  *)
(* of the test suite, and what they may have to do with the library: nothing *)
(* but which of several equivalent ways it takes.                            *)
(*                                                                           *)
(* Tools: compilers with the operating systems they compile for.             *)
(*   word, long   bits of a pointer and of long (32 on 64-bit Windows)       *)
(*   x86          an x86, AES instructions can be had                        *)
(*   mul, add     the way of multiplying and adding it gets (see Arith)      *)
(*   start        how the pointer behind t1ha0 is set: "ctor" before main,   *)
(*                "call" by the first call only                              *)
EXTENDS Build, TLC
T(w, lng, x, m, a, s) == [word |-> w, long |-> lng, x86 |-> x, mul |-> m, add |-> a, start |-> s]
Tool ==
  [t \in {"mingw64", "msvc64", "clangcl64", "msvc32", "msvc64-2013", "msvc32-2013", "bare64", "bare32", "gcc42-64", "gcc42-32",
          "e2k", "e2k-iset2", "e2k-124"} |->
     CASE t = "mingw64"   -> T(64, 32, TRUE, "wide", "native", "ctor")
       [] t = "msvc64"    -> T(64, 32, TRUE, "wide", "native", "call")
       [] t = "clangcl64" -> T(64, 32, TRUE, "wide", "native", "ctor")
       [] t = "msvc32"    -> T(32, 32, TRUE, "parts", "halves", "call")
       [] t = "msvc64-2013" -> T(64, 32, TRUE, "wide", "native", "call")
       [] t = "msvc32-2013" -> T(32, 32, FALSE, "parts", "compare", "call")
       [] t = "bare64"    -> T(64, 64, FALSE, "parts", "compare", "call")
       [] t = "bare32"    -> T(32, 32, FALSE, "parts", "compare", "call")
       [] t = "gcc42-64"  -> T(64, 64, FALSE, "wide", "compare", "ctor")
       [] t = "gcc42-32"  -> T(32, 32, FALSE, "parts", "compare", "ctor")
       [] t = "e2k"       -> T(64, 64, FALSE, "high", "native", "none")
       [] t = "e2k-124"   -> T(64, 64, FALSE, "high", "native", "none")
       [] t = "e2k-iset2" -> T(64, 64, FALSE, "wide", "native", "none")]
Tools == DOMAIN Tool
ASSUME \A t \in Tools : Tool[t].mul \in {"wide", "high", "parts"} /\ Tool[t].add \in {"native", "compare", "halves"}
(* every way that Arith models is somebody's way *)
ASSUME {Tool[t].mul : t \in Tools} = {"wide", "high", "parts"} /\ {Tool[t].add : t \in Tools} = {"native", "compare", "halves"}

(* ---- the builds of the library with them ------------------------------- *)
Values == [un |-> {"auto", "0", "1", "2"}, oneshot |-> {"auto", "0", "1"}, opt |-> {"-O0", "-O2", "-O3", "-Os"},
           assert |-> {"yes", "no"}]
Opts == DOMAIN Values
Rows == {r \in [tool : Tools, un : Values.un, oneshot : Values.oneshot, opt : Values.opt, assert : Values.assert] : TRUE}
(* rows say enough about a tool if every pair of options occurs with it,     *)
(* or, in a quick run, every single option                                   *)
CoversSingles(rows) == \A t \in Tools, o \in Opts : \A v \in Values[o] : \E r \in rows : r.tool = t /\ r[o] = v
CoversPairs(rows) == \A t \in Tools, o \in Opts, q \in Opts : o # q =>
                       \A v \in Values[o], w \in Values[q] : \E r \in rows : r.tool = t /\ r[o] = v /\ r[q] = w

(* ---- what the library must make of a platform ------------------------- *)
(* A platform: word, be, x86, e2k, traps (some misaligned access does), elf, *)
(* known (the byte order can be told from the machine alone), noaes (the     *)
(* compiler has no AES instructions).                                        *)
(* How it is asked: dis, families disabled; info, what tells the byte order: *)
(* the "compiler", the system's "header", or only the "machine".             *)
(* Facts the headers come to: order, unaligned, aes, rt, ifunc, and t1ha0,   *)
(* the function behind t1ha0 in a build that neither selects nor uses AES.   *)
(* Ways are free as far as they are sound on the platform.                   *)
Asked(p, q) == [word |-> p.word, be |-> p.be, dis |-> q.dis, x86 |-> p.x86, aes |-> FALSE, rt |-> FALSE, ifunc |-> FALSE, def |-> TRUE]
Sound(p, q, f) ==
  IF f.order = "refused" THEN q.info = "machine" /\ ~ p.known
  ELSE /\ f.order = (IF p.be THEN "big" ELSE "little")
       /\ f.unaligned \in (IF p.traps THEN {0} ELSE 0..2)
       /\ f.aes = (IF (p.x86 \/ p.e2k) /\ ~ p.noaes THEN 1 ELSE 0)
       /\ f.rt = (IF p.x86 /\ ~ p.noaes THEN 1 ELSE 0)
       /\ (f.ifunc = 1 => p.elf)
       /\ f.t1ha0 = Portable(Asked(p, q))
=============================================================================
