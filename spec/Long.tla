--------------------------------- MODULE Long --------------------------------
(* Values of the hash functions on long messages: N bytes, N a word (four   *)
(* limbs) over 32, whose          byte i is byte (o + i) mod 2^20 of the    *)
(* generator "p" with the given salt.  The same starting, block and closing *)
(* steps as in T1ha2, T1ha1, T1ha0 and Ia32Aes; only the walk over the      *)
(* blocks is Bulk's, and the length enters as the word it is.               *)
EXTENDS Bulk
LOCAL INSTANCE T1ha2
LOCAL INSTANCE T1ha1
LOCAL INSTANCE T1ha0
LOCAL INSTANCE Ia32Aes

Period == 1048576
Low20(N) == N[1] + (N[2] % 16) * 65536
Periods(N) == (N[2] \div 16) + N[3] * 4096        \* N < 2^48 or so

(* whole blocks of z bytes in N - skip bytes (skip < 2^20), and the rest *)
NBlocks(N, z, skip) == (Periods(N) - 1) * (Period \div z) + ((Low20(N) + Period - skip) \div z)
NRest(N, z, skip) == (Low20(N) + Period - skip) % z

LongMsg(salt) == [g |-> "r", s |-> salt, n |-> 0, b |-> <<>>]
(* the content offset of the last r bytes *)
End(N, o, r) == (o + Low20(N) + Period) - r

LongWalk(k, z, s, salt, o, N) == Run(k, s, salt, o, NBlocks(N, z, 0))

LongStream(f, salt, o, N, x, y) ==
  LET s == LongWalk("2", 32, StreamInit(x, y), salt, o, N)
      r == NRest(N, 32, 0)
      rest == [i \in 1..r |-> MsgByte(LongMsg(salt), End(N, o, r) + i - 1)]
  IN  IF f = "2s64" THEN << StreamClose64(s, rest, N), <<>> >> ELSE StreamClose128(s, rest, N)

LongT1ha2(f, salt, o, N, x) ==
  LET s == LongWalk("2", 32, InitAB(x, N) \o InitCD(x, N), salt, o, N)
      r == NRest(N, 32, 0)
  IN  IF f = "2a64" THEN LET q == Squash(s) IN << Close64(q[1], q[2], LongMsg(salt), End(N, o, r), r), <<>> >>
                    ELSE Close128(s, LongMsg(salt), End(N, o, r), r)

LongT1ha1(e, salt, o, N, x) ==
  LET s == LongWalk(IF e = "le" THEN "1le" ELSE "1be", 32, T1ha1Start(N, x), salt, o, N)
      r == NRest(N, 32, 0)
  IN  T1ha1Close(T1ha1Squash(s), e, LongMsg(salt), End(N, o, r), r)

LongT1ha0(e, salt, o, N, x) ==
  LET s == LongWalk(IF e = "le" THEN "0le" ELSE "0be", 16, T1ha0Start(Lo32(N), x), salt, o, N)
      r == NRest(N, 16, 0)
  IN  T1ha0Close(T1ha0Squash(s), e, LongMsg(salt), End(N, o, r), r)

LongAesA(salt, o, N, x) ==
  LET r == NRest(N, 128, 0)
      s == LongWalk("a", 128, StartA(N, x), salt, o, N)
  IN  FinishA(s, LongMsg(salt), End(N, o, r), r)
LongAesB(salt, o, N, x) ==
  LET skip == (IF OddB(N[1]) THEN 16 ELSE 0)
      odd16 == [g |-> "x", s |-> 0, n |-> 16, b |-> [i \in 1..16 |-> MsgByte(LongMsg(salt), o + i - 1)]]
      r == NRest(N, 128, skip + (N[1] % 16))
      s == Run("b", StartB(N, x, odd16, N[1] % 128), salt, o + skip, NBlocks(N, 128, skip + (N[1] % 16)))
  IN  FinishB(s, LongMsg(salt), End(N, o, r + (N[1] % 16)), r)
LongAes(kind, salt, o, N, x) ==
  LET v == IF kind = "a" THEN LongAesA(salt, o, N, x) ELSE LongAesB(salt, o, N, x)
      r == N[1] % 16
  IN  AesClose(<< XLo(v), XHi(v) >>, LongMsg(salt), End(N, o, r), r)

LongValue(f, salt, o, N, x, y) ==
  CASE f \in {"2a64", "2a128"} -> LongT1ha2(f, salt, o, N, x)
    [] f \in {"2s64", "2s128"} -> LongStream(f, salt, o, N, x, y)
    [] f = "1le" -> << LongT1ha1("le", salt, o, N, x), <<>> >>
    [] f = "1be" -> << LongT1ha1("be", salt, o, N, x), <<>> >>
    [] f = "0le" -> << LongT1ha0("le", salt, o, N, x), <<>> >>
    [] f = "0be" -> << LongT1ha0("be", salt, o, N, x), <<>> >>
    [] f \in {"aes", "avx"} -> << LongAes("a", salt, o, N, x), <<>> >>
    [] f = "avx2" -> << LongAes("b", salt, o, N, x), <<>> >>
=============================================================================
