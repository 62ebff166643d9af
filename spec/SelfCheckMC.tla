----------------------------- MODULE SelfCheckMC -----------------------------
EXTENDS SelfCheck
Full(word, dis, aes) == [word |-> word, be |-> FALSE, dis |-> dis, x86 |-> TRUE, aes |-> aes, rt |-> aes, ifunc |-> FALSE, def |-> FALSE]
SomeBuilds == {Full(w, d, a) : w \in {32, 64}, d \in {{}, {1}, {2}, {1, 2}, {0}}, a \in BOOLEAN}
AllBuilds == {Full(w, d, a) : w \in {32, 64}, d \in SUBSET {0, 1, 2}, a \in BOOLEAN}
Cpu(m, a, o, v, w) == [max |-> m, aes |-> a, osxsave |-> o, avx |-> v, avx2 |-> w, noise |-> "ones"]
SomeCpus == {Cpu(13, TRUE, TRUE, TRUE, TRUE), Cpu(1, TRUE, TRUE, TRUE, TRUE), Cpu(7, TRUE, FALSE, TRUE, TRUE), Cpu(7, FALSE, TRUE, TRUE, TRUE)}
=============================================================================
