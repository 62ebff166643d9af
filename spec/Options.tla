-------------------------------- MODULE Options ------------------------------
(* The documented build options and what they may change.  A row is a       *)
(* choice of every option; "auto" leaves it to the header.  The options     *)
(* decide how bytes are fetched (MemAccess), which functions are offered    *)
(* and how t1ha0 dispatches; the value of a named function is               *)
(* Value(f, m, x, y) of Api, of which no option is an argument.             *)
EXTENDS Build, TLC

Values == [un |-> {"auto", "0", "1", "2", "config"},  \* T1HA_SYS_UNALIGNED_ACCESS, CONFIG_HAVE_EFFICIENT_UNALIGNED_ACCESS
           oneshot |-> {"auto", "0", "1"},            \* T1HA_USE_FAST_ONESHOT_READ
           ifunc |-> {"auto", "0", "1"},              \* T1HA_USE_INDIRECT_FUNCTIONS
           rt |-> {"auto", "0", "1"},                 \* T1HA0_RUNTIME_SELECT
           aes |-> {"auto", "0", "1"},                \* T1HA0_AESNI_AVAILABLE
           cc |-> {"gcc", "clang"},
           opt |-> {"-O0", "-O1", "-O2", "-O3", "-Os"},
           assert |-> {"yes", "no"},
           target |-> {"64", "32", "32sse2"},
           tune |-> {"generic", "native"},
           std |-> {"c11", "c99", "gnu17"},           \* language standard
           how |-> {"plain", "lto", "noinline", "nobuiltin", "uchar", "ubsan", "nopie", "common"}]  \* how it is compiled
Opts == DOMAIN Values
IsRow(r) == DOMAIN r = Opts /\ \A o \in Opts : r[o] \in Values[o]

Word(r) == IF r.target = "64" THEN 64 ELSE 32

(* ------------------------- the options' effect --------------------------- *)
Aes(r) == r.aes # "0"
Rt(r) == r.rt = "1" \/ (r.rt = "auto" /\ Aes(r))
Ifunc(r) == Rt(r) /\ (r.ifunc = "1" \/ (r.ifunc = "auto" /\ Word(r) = 64))
BuildOf(r) == [word |-> Word(r), be |-> FALSE, dis |-> {}, x86 |-> TRUE, aes |-> Aes(r), rt |-> Rt(r),
               ifunc |-> Ifunc(r), def |-> FALSE]

(* the functions a row offers, by short name *)
Offered(r) == {"2a64", "2a128", "2s64", "2s128", "1le", "1be", "0le", "0be"}
              \cup (IF Aes(r) THEN {"aes", "avx", "avx2"} ELSE {})

(* ------------------------------ coverage -------------------------------- *)
PairsOf(r) == {<< p[1], r[p[1]], p[2], r[p[2]] >> : p \in {q \in Opts \X Opts : q[1] # q[2]}}
AllPairs == UNION {{<< p[1], v, p[2], w >> : v \in Values[p[1]], w \in Values[p[2]]} :
                   p \in {q \in Opts \X Opts : q[1] # q[2]}}
CoversAllPairs(rows) == AllPairs \subseteq UNION {PairsOf(r) : r \in rows}

(* every row is a build the rest of the specification knows *)
ASSUME \A t \in Values.target, a \in Values.aes, rr \in Values.rt, i \in Values.ifunc :
  Sensible(BuildOf([un |-> "auto", oneshot |-> "auto", ifunc |-> i, rt |-> rr, aes |-> a, cc |-> "gcc", opt |-> "-O0",
                    assert |-> "yes", target |-> t, tune |-> "generic",
                    std |-> "c11", how |-> "plain"]))
=============================================================================
