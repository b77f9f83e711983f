----------------------------- MODULE MC_ParSort -----------------------------
EXTENDS ParSort, TLC
Keyed(n, m) == {[i \in 1..n |-> <<f[i], i>>] : f \in [1..n -> 1..m]}
UpTo(n, m) == UNION {Keyed(j, m) : j \in 0..n}
In42 == UpTo(4, 2)
In52 == UpTo(5, 2)
In62 == Keyed(6, 2)
In53 == UpTo(5, 3)
=============================================================================
