------------------------------ MODULE Listing -------------------------------
(* Listings of matrices and vectors by the library: the numbers in the order in which they
   are printed, in units of 1/10000 (rounded by the printer). *)
EXTENDS Matrix

Unit == 10000
NearTo(t, v) == t - v <= 1 /\ v - t <= 1
SameNumbers(ts, vs) == Len(ts) = Len(vs) /\ \A k \in 1..Len(vs) : NearTo(ts[k], vs[k])
\* entries one after the other; long listings are declined
ListEntries(es) == Flat([k \in 1..Len(es) |-> <<Unit * es[k][1], Unit * es[k][2], (Unit \div 4) * es[k][3]>>])
CooListed(es, ts) == Len(es) > 20 \/ SameNumbers(ts, ListEntries(es))
\* row by row: the row, then columns and values in the order in which they are stored
RowListing(i, rs) == <<Unit * i>> \o Flat([k \in 1..Len(rs) |-> <<Unit * rs[k][2], (Unit \div 4) * rs[k][3]>>])
RowsOf(es, i) == SelectSeq(es, LAMBDA e : e[1] = i)
RECURSIVE RowsListed(_, _, _, _)
RowsListed(es, r, i, ts) ==      \* ts starts with row i
    IF i = r THEN ts = <<>>
    ELSE LET m == RowsOf(es, i)  n == 1 + 2 * Len(m)
         IN /\ Len(ts) >= n /\ NearTo(ts[1], Unit * i)
            /\ SameBag(m, [k \in 1..Len(m) |-> <<i, ts[2 * k] \div Unit, ts[2 * k + 1] \div (Unit \div 4)>>])
            /\ RowsListed(es, r, i + 1, SubSeq(ts, n + 1, Len(ts)))
CsrListed(es, r, ts) == r > 20 \/ RowsListed(es, r, 0, ts)
\* a vector in units of 1/64
VecListed(v, ts) == SameNumbers(ts, Flat([k \in 1..Len(v) |-> <<Unit * (k - 1), (Unit * v[k]) \div 64>>]))
=============================================================================
