-------------------------------- MODULE Build --------------------------------
(* The library's compile-time configuration and what each configuration     *)
(* offers: hash functions, self-checks, and the function behind t1ha0().    *)
(*                                                                          *)
(* A build is a record                                                      *)
(*   [word : {32, 64}, be : BOOLEAN,       machine word and byte order      *)
(*    dis : SUBSET {0, 1, 2},              T1HA<k>_DISABLED                 *)
(*    x86 : BOOLEAN, aes : BOOLEAN,        T1HA0_AESNI_AVAILABLE            *)
(*    rt : BOOLEAN,                        T1HA0_RUNTIME_SELECT             *)
(*    ifunc : BOOLEAN,                     T1HA_USE_INDIRECT_FUNCTIONS      *)
(*    def : BOOLEAN]                       T1HA0_USE_DEFINE                 *)
EXTENDS Integers, Sequences, FiniteSets, Cpu

Builds == [word : {32, 64}, be : BOOLEAN, dis : SUBSET {0, 1, 2}, x86 : BOOLEAN, aes : BOOLEAN, rt : BOOLEAN,
           ifunc : BOOLEAN, def : BOOLEAN]

Sensible(b) == /\ (b.aes => b.x86) /\ (b.x86 => ~ b.be)
               /\ (b.def => ~ b.rt)             \* T1HA0_USE_DEFINE is for builds without runtime selection
               /\ (b.ifunc => b.rt)
               /\ (0 \in b.dis => ~ b.def)

Enabled(b, k) == k \notin b.dis

(* ---------------------------- what is offered --------------------------- *)
T2Names == {"t1ha2_atonce", "t1ha2_atonce128", "t1ha2_init", "t1ha2_update", "t1ha2_final"}
T1Names == {"t1ha1_le", "t1ha1_be"}
T0Names(b) == {"t1ha0", "t1ha0_32le", "t1ha0_32be"} \cup (IF b.rt THEN {"t1ha0_resolve"} ELSE {})
              \cup (IF b.aes THEN {"t1ha0_ia32aes_noavx", "t1ha0_ia32aes_avx", "t1ha0_ia32aes_avx2"} ELSE {})
HashNames(b) == (IF Enabled(b, 2) THEN T2Names ELSE {}) \cup (IF Enabled(b, 1) THEN T1Names ELSE {})
                \cup (IF Enabled(b, 0) THEN T0Names(b) ELSE {})

T2Checks == {"t1ha_selfcheck__t1ha2_atonce", "t1ha_selfcheck__t1ha2_atonce128", "t1ha_selfcheck__t1ha2_stream",
             "t1ha_selfcheck__t1ha2"}
T1Checks == {"t1ha_selfcheck__t1ha1_le", "t1ha_selfcheck__t1ha1_be", "t1ha_selfcheck__t1ha1"}
T0Checks(b) == {"t1ha_selfcheck__t1ha0_32le", "t1ha_selfcheck__t1ha0_32be", "t1ha_selfcheck__t1ha0"}
               \cup (IF b.aes THEN {"t1ha_selfcheck__t1ha0_ia32aes_noavx", "t1ha_selfcheck__t1ha0_ia32aes_avx",
                                    "t1ha_selfcheck__t1ha0_ia32aes_avx2"} ELSE {})
CheckNames(b) == {"t1ha_selfcheck__all_enabled"} \cup (IF Enabled(b, 2) THEN T2Checks ELSE {})
                 \cup (IF Enabled(b, 1) THEN T1Checks ELSE {}) \cup (IF Enabled(b, 0) THEN T0Checks(b) ELSE {})

Names(b) == HashNames(b) \cup CheckNames(b)
(* every public name there is, whatever the configuration *)
AllNames == T2Names \cup T1Names \cup T2Checks \cup T1Checks
            \cup {"t1ha0", "t1ha0_32le", "t1ha0_32be", "t1ha0_resolve", "t1ha0_ia32aes_noavx", "t1ha0_ia32aes_avx",
                  "t1ha0_ia32aes_avx2", "t1ha_selfcheck__t1ha0_32le", "t1ha_selfcheck__t1ha0_32be", "t1ha_selfcheck__t1ha0",
                  "t1ha_selfcheck__t1ha0_ia32aes_noavx", "t1ha_selfcheck__t1ha0_ia32aes_avx",
                  "t1ha_selfcheck__t1ha0_ia32aes_avx2", "t1ha_selfcheck__all_enabled"}

(* names a shared library exports.  The AES variants are internal, and not  *)
(* needed outside; t1ha0 is inline (or a macro) unless an indirect function *)
Optional == {"t1ha0_ia32aes_noavx", "t1ha0_ia32aes_avx", "t1ha0_ia32aes_avx2"}
Exported(b) == ((Names(b) \ Optional) \ (IF b.rt /\ b.ifunc THEN {} ELSE {"t1ha0"}))
               \cup (IF Enabled(b, 0) /\ b.rt /\ ~ b.ifunc THEN {"t1ha0_funcptr"} ELSE {})
(* what a program linked with the shared library can use *)
Usable(b) == Names(b) \ Optional

(* ------------------- the function behind t1ha0, by short name ----------- *)
(* the portable default, as documented *)
Portable(b) ==
  IF b.word = 64 /\ Enabled(b, 1) THEN (IF b.be THEN "1be" ELSE "1le")
  ELSE IF b.word = 64 /\ Enabled(b, 2) THEN "2a64"
  ELSE IF b.be THEN "0be" ELSE "0le"

(* the dispatcher's choice on processor c *)
Choice(b, c) ==
  IF ~ (b.aes /\ b.rt) THEN Portable(b)
  ELSE IF HasAvx2(c) THEN "avx2" ELSE IF HasAvx(c) THEN "avx" ELSE IF HasAes(c) THEN "aes" ELSE Portable(b)

(* ------------------------------ self-checks ----------------------------- *)
(* the functions each self-check is responsible for on processor c *)
Covers(b, c, k) ==
  CASE k = "t1ha_selfcheck__t1ha2_atonce"    -> {"2a64"}
    [] k = "t1ha_selfcheck__t1ha2_atonce128" -> {"2a128"}
    [] k = "t1ha_selfcheck__t1ha2_stream"    -> {"2s64", "2s128"}
    [] k = "t1ha_selfcheck__t1ha2"           -> {"2a64", "2a128", "2s64", "2s128"}
    [] k = "t1ha_selfcheck__t1ha1_le"        -> {"1le"}
    [] k = "t1ha_selfcheck__t1ha1_be"        -> {"1be"}
    [] k = "t1ha_selfcheck__t1ha1"           -> {"1le", "1be"}
    [] k = "t1ha_selfcheck__t1ha0_32le"      -> {"0le"}
    [] k = "t1ha_selfcheck__t1ha0_32be"      -> {"0be"}
    [] k = "t1ha_selfcheck__t1ha0_ia32aes_noavx" -> {"aes"}
    [] k = "t1ha_selfcheck__t1ha0_ia32aes_avx"   -> {"avx"}
    [] k = "t1ha_selfcheck__t1ha0_ia32aes_avx2"  -> {"avx2"}
    \* t1ha0: its own variants and whatever it may dispatch to
    [] k = "t1ha_selfcheck__t1ha0" ->
         {"0le", "0be"} \cup {Portable(b)} \cup (IF b.aes THEN Supported(c) ELSE {})
    [] k = "t1ha_selfcheck__all_enabled" ->
         (IF Enabled(b, 2) THEN {"2a64", "2a128", "2s64", "2s128"} ELSE {})
         \cup (IF Enabled(b, 1) THEN {"1le", "1be"} ELSE {})
         \cup (IF Enabled(b, 0) THEN {"0le", "0be"} \cup (IF b.aes THEN Supported(c) ELSE {}) ELSE {})
=============================================================================
