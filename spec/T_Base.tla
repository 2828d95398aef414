------------------------------- MODULE T_Base -------------------------------
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Gauss
If(c, name) == IF c THEN {} ELSE {name}
NoDup(q) == \A i, j \in 1 .. Len(q) : i # j => q[i] # q[j]
ToS(q) == {q[i] : i \in 1 .. Len(q)}
GAbs2(g) == g[1] * g[1] + g[2] * g[2]
=============================================================================
