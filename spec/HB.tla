--------------------------------- MODULE HB ---------------------------------
(* Happens-before of a team of workers, as vector clocks, and conflicts of accesses.
   An access is <<object, first byte, end, kind>>; kinds: 0 read, 1 write, 2 atomic
   read, 3 atomic write, 4 release of the object. *)
EXTENDS Integers, Sequences, FiniteSets
Max2(a, b) == IF a < b THEN b ELSE a
Zero(W) == [j \in 1..W |-> 0]
First(W) == [k \in 1..W |-> [Zero(W) EXCEPT ![k] = 1]]
Join(c, d) == [j \in DOMAIN c |-> Max2(c[j], d[j])]
Tick(clk, k) == [clk EXCEPT ![k][k] = @ + 1]
Acquire(clk, k, c) == [clk EXCEPT ![k] = Join(@, c)]
RECURSIVE JoinAll(_, _)
JoinAll(S, c) == IF S = {} THEN c ELSE LET d == CHOOSE d \in S : TRUE IN JoinAll(S \ {d}, Join(c, d))
\* everybody knows what everybody has done
Meet(clk) == LET W == Len(clk) all == JoinAll({clk[k] : k \in 1..W}, Zero(W)) IN [k \in 1..W |-> [all EXCEPT ![k] = @ + 1]]
\* what worker j did at its time s is known to worker k
Before(clk, j, s, k) == s <= clk[k][j]

Changes(kind) == kind \in {1, 3, 4}
Atomic(kind) == kind \in {2, 3}
Overlap(lo, hi, lo2, hi2) == lo < hi2 /\ lo2 < hi
Clash(k1, k2) == (Changes(k1) \/ Changes(k2)) /\ ~(Atomic(k1) /\ Atomic(k2))
=============================================================================
