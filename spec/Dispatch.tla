------------------------------ MODULE Dispatch -------------------------------
(* t1ha0 through the life of a process, shaped like the code: the CPU       *)
(* probe with its masks, resolution by the loader (indirect functions), by  *)
(* a constructor with a proxy before it (function pointer), or at compile   *)
(* time; calls from several threads and from constructors that run before   *)
(* the library's own.                                                       *)
EXTENDS Build

CONSTANTS Threads,        \* concurrent callers
          HasProxy        \* FALSE: the code before the repair (no proxy before the constructor)
VARIABLES build, cpu,     \* fixed in a behaviour
          phase,          \* "load", "early", "ctor", "run"
          ptr,            \* t1ha0_funcptr, or the loader's slot
          pc, at,         \* per thread: control state and the pointer value it read
          done            \* what each thread's last call executed
vars == << build, cpu, phase, ptr, pc, at, done >>

Null == "null"

(* ---- the probe, as coded: leaf 0 for the highest leaf, masks ---- *)
MaxLeaf(c) == Cpuid(c, <<0, 0>>, <<0, 0>>).a[1]
Features(c) ==
  LET m == MaxLeaf(c)
  IN  [lo |-> IF m >= 1 THEN Cpuid(c, <<1, 0>>, <<0, 0>>).c ELSE <<0, 0>>,
       hi |-> IF m >= 7 /\ m >= 1 THEN Cpuid(c, <<7, 0>>, <<0, 0>>).b ELSE <<0, 0>>]
On(h, n) == (h \div Bit(n)) % 2 = 1
AesAvail(f)  == On(f.lo[2], 9)                                    \* 0x02000000
AvxAvail(f)  == On(f.lo[2], 9) /\ On(f.lo[2], 11) /\ On(f.lo[2], 12)  \* 0x1A000000
Avx2Avail(f) == On(f.hi[1], 5)                                    \* 32 of leaf 7's EBX

Resolve(b, c) ==
  LET f == Features(c)
  IN  IF b.aes /\ AesAvail(f)
      THEN IF AvxAvail(f) THEN (IF Avx2Avail(f) THEN "avx2" ELSE "avx") ELSE "aes"
      ELSE IF b.word = 64 /\ ~ ({1, 2} \subseteq b.dis)
           THEN IF 1 \notin b.dis THEN (IF b.be THEN "1be" ELSE "1le") ELSE "2a64"
           ELSE IF b.be THEN "0be" ELSE "0le"
(* the inline function or macro of t1ha.h *)
Inline(b) == IF b.word = 64 /\ (1 \notin b.dis \/ 2 \notin b.dis)
             THEN IF 1 \in b.dis THEN "2a64" ELSE IF b.be THEN "1be" ELSE "1le"
             ELSE IF b.be THEN "0be" ELSE "0le"

Init == /\ build \in {b \in Builds : Sensible(b) /\ Enabled(b, 0)}
        /\ cpu \in (IF build.aes /\ build.rt THEN Cpus ELSE {[max |-> 13, aes |-> TRUE, osxsave |-> TRUE, avx |-> TRUE, avx2 |-> TRUE, noise |-> "ones"]})
        /\ phase = "load"
        /\ ptr = Null
        /\ pc = [t \in Threads |-> "idle"] /\ at = [t \in Threads |-> Null] /\ done = [t \in Threads |-> "none"]

(* the loader applies the relocations: indirect functions are resolved now *)
Load == /\ phase = "load" /\ phase' = "early"
        /\ ptr' = IF ~ build.rt THEN Inline(build) ELSE IF build.ifunc THEN Resolve(build, cpu) ELSE IF HasProxy THEN "proxy" ELSE Null
        /\ UNCHANGED << build, cpu, pc, at, done >>

(* the library's constructor *)
Construct == /\ phase = "early" /\ phase' = "run"
             /\ \A t \in Threads : pc[t] = "idle"      \* constructors run one after another
             /\ ptr' = IF build.rt /\ ~ build.ifunc THEN Resolve(build, cpu) ELSE ptr
             /\ UNCHANGED << build, cpu, pc, at, done >>

First == CHOOSE t \in Threads : TRUE
Callers == IF phase = "early" THEN {First} ELSE IF phase = "run" THEN Threads ELSE {}

ReadPtr(t) == /\ t \in Callers /\ pc[t] = "idle" /\ done[t] = "none"
              /\ at' = [at EXCEPT ![t] = ptr] /\ pc' = [pc EXCEPT ![t] = "enter"]
              /\ UNCHANGED << build, cpu, phase, ptr, done >>
Enter(t) == /\ pc[t] = "enter"
            /\ IF at[t] = "proxy"
               THEN /\ ptr' = Resolve(build, cpu)          \* one aligned pointer store
                    /\ pc' = [pc EXCEPT ![t] = "reread"] /\ UNCHANGED << at, done >>
               ELSE /\ pc' = [pc EXCEPT ![t] = "idle"]
                    /\ done' = [done EXCEPT ![t] = at[t]] /\ UNCHANGED << at, ptr >>
            /\ UNCHANGED << build, cpu, phase >>
Reread(t) == /\ pc[t] = "reread"
             /\ at' = [at EXCEPT ![t] = ptr] /\ pc' = [pc EXCEPT ![t] = "enter"]
             /\ UNCHANGED << build, cpu, phase, ptr, done >>
Again(t) == /\ pc[t] = "idle" /\ done[t] # "none" /\ done' = [done EXCEPT ![t] = "none"]
            /\ UNCHANGED << build, cpu, phase, ptr, pc, at >>

Next == Load \/ Construct \/ \E t \in Threads : ReadPtr(t) \/ Enter(t) \/ Reread(t) \/ Again(t)
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
ProbeIsRight == build.aes =>
  LET f == Features(cpu)
  IN  /\ (AesAvail(f) = HasAes(cpu))
      /\ ((AesAvail(f) /\ AvxAvail(f)) = HasAvx(cpu))
      /\ ((AesAvail(f) /\ AvxAvail(f) /\ Avx2Avail(f)) = HasAvx2(cpu))
ResolveIsChoice == build.rt => Resolve(build, cpu) = Choice(build, cpu)
(* every call, the first ones included, executes the chosen function *)
CallsAreRight == \A t \in Threads : done[t] \in {"none", Choice(build, cpu)}
NeverUnsupported == \A t \in Threads : done[t] \in Accelerated => done[t] \in Supported(cpu)
(* the resolver's function and the one being called agree once loaded *)
SameFunction == phase = "run" /\ build.rt => ptr = Resolve(build, cpu)
(* the table honours the flags it was made from *)
TableSane == /\ Cpuid(cpu, <<0, 0>>, <<3, 0>>).a[1] = cpu.max
             /\ cpu.max < 7 => Cpuid(cpu, <<7, 0>>, <<0, 0>>).b = Ones32
=============================================================================
