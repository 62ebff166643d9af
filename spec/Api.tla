---------------------------------- MODULE Api --------------------------------
(* The library's hash functions by name: Value(fn, m, x, y) is << result,   *)
(* extra result >> of fn on message m with seed x (stream functions: seeds  *)
(* x and y); the extra result is <<>> where there is none.                  *)
LOCAL INSTANCE T1ha2
LOCAL INSTANCE T1ha1
LOCAL INSTANCE T1ha0
LOCAL INSTANCE Ia32Aes

HashFns == {"2a64", "2a128", "2s64", "2s128", "1le", "1be", "0le", "0be", "aes", "avx", "avx2"}

Value(fn, m, x, y) ==
  CASE fn = "2a64"  -> << T1ha2AtOnce(m, x), <<>> >>
    [] fn = "2a128" -> T1ha2AtOnce128(m, x)
    [] fn = "2s64"  -> << T1ha2Stream64(m, x, y), <<>> >>
    [] fn = "2s128" -> T1ha2Stream128(m, x, y)
    [] fn = "1le"   -> << T1ha1("le", m, x), <<>> >>
    [] fn = "1be"   -> << T1ha1("be", m, x), <<>> >>
    [] fn = "0le"   -> << T1ha0("le", m, x), <<>> >>
    [] fn = "0be"   -> << T1ha0("be", m, x), <<>> >>
    [] fn = "aes"   -> << Ia32Aes("a", m, x), <<>> >>
    [] fn = "avx"   -> << Ia32Aes("a", m, x), <<>> >>
    [] fn = "avx2"  -> << Ia32Aes("b", m, x), <<>> >>
=============================================================================
