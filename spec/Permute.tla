------------------------------ MODULE Permute -------------------------------
(* Permutations of indices, and the expansion of blocks to a constant size. *)
EXTENDS Matrix

IsPerm(p) == {p[i] : i \in 1..Len(p)} = 0..(Len(p) - 1)
InverseOf(q, p) == Len(q) = Len(p) /\ \A i \in 1..Len(p) : q[p[i] + 1] = i - 1
InversePerm(p) == LET pos == [i \in {p[k] : k \in 1..Len(p)} |-> 0]
                  f == FoldLeft(LAMBDA acc, k : [acc EXCEPT ![p[k]] = k - 1], pos, [k \in 1..Len(p) |-> k])
              IN [i \in 1..Len(p) |-> f[i - 1]]
Image(p, xs) == [i \in 1..Len(xs) |-> p[xs[i] + 1]]

RECURSIVE Pow2From(_, _)
Pow2From(k, n) == IF k >= n THEN k ELSE Pow2From(2 * k, n)
NextPow2(n) == Pow2From(1, n)

\* blocks of sizes b, one of them at least not empty
ExpandSize(b) == NextPow2(MaxOf(b))
InWhich(off, i) == BlockOf(off, i)
ExpandAt(off, size, i) == LET k == InWhich(off, i) IN (k - 1) * size + (i - off[k])
ExpandIndex(b, i) == ExpandAt(Offsets(b), ExpandSize(b), i)
=============================================================================
