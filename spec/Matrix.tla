------------------------------- MODULE Matrix -------------------------------
(* A sparse matrix is a sequence of entries <<row, column, value>> (zero based,
   duplicates and explicit zeros allowed) together with a shape.  Two sequences
   hold the same matrix iff they are equal as bags.  Values are integers in units
   of 1/4, vector elements integers in units of 1/64.  Three integers outside of the
   range used stand for the values that are no numbers. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

\* evaluated as a value: in an action TLC would expand its quantifiers one by one
Holds(p) == p = TRUE

\* ---- bags of entries
RECURSIVE LexFrom(_, _, _)
LexFrom(a, b, i) ==
    IF i > Len(a) THEN FALSE
    ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexFrom(a, b, i + 1)
LexLess(a, b) == LexFrom(a, b, 1)

\* Sorting a sequence of different tuples.  TLC enumerates a set of tuples in this order
\* already, which is much faster than SortSeq; the order is looked at, not trusted.
SortTuples(s) ==
    LET t == SetToSeq({s[i] : i \in 1..Len(s)})
    IN IF Len(t) = Len(s) /\ \A i \in 1..(Len(t) - 1) : LexLess(t[i], t[i + 1]) THEN t ELSE SortSeq(s, LexLess)
Norm(es) == LET t == SortTuples([i \in 1..Len(es) |-> es[i] \o <<i>>]) IN [i \in 1..Len(t) |-> es[t[i][Len(t[i])]]]
SameBag(a, b) == Len(a) = Len(b) /\ (a = b \/ Norm(a) = Norm(b))

InShape(es, r, c) == \A i \in 1..Len(es) : es[i][1] \in 0..(r - 1) /\ es[i][2] \in 0..(c - 1)

\* ---- values that are no numbers (a product has them in the matrix and in y, not in x)
NotANumber == -2147483601
PosInf     == -2147483602
NegInf     == -2147483603
Odd(v) == v < -2147483600
Times(v, x) ==
    IF ~Odd(v) THEN v * x
    ELSE IF v = NotANumber \/ x = 0 THEN NotANumber
    ELSE IF (v = PosInf) = (x > 0) THEN PosInf ELSE NegInf
Plus(a, b) ==
    IF ~Odd(a) THEN IF Odd(b) THEN b ELSE a + b
    ELSE IF ~Odd(b) \/ a = b THEN a ELSE NotANumber

\* ---- y + A x, with y and x in units of 1/64 and the values in units of 1/4
Scaled(y) == [i \in 1..Len(y) |-> IF Odd(y[i]) THEN y[i] ELSE 4 * y[i]]
MulScaled(es, x, y4) == FoldLeft(LAMBDA acc, e : [acc EXCEPT ![e[1] + 1] = Plus(@, Times(e[3], x[e[2] + 1]))], y4, es)
MulAdd(es, x, y) ==
    LET z == MulScaled(es, x, Scaled(y))
    IN [i \in 1..Len(y) |-> IF Odd(z[i]) THEN z[i] ELSE z[i] \div 4]
\* the unit is fine enough for the result to be exact
MulExact(es, x, y) ==
    LET z == MulScaled(es, x, Scaled(y)) IN \A i \in 1..Len(y) : Odd(z[i]) \/ z[i] % 4 = 0

\* ---- sum of the entries at every coordinate
Grid(es, r, c) ==
    FoldLeft(LAMBDA acc, e : [acc EXCEPT ![e[1] * c + e[2] + 1] = Plus(@, e[3])], [k \in 1..(r * c) |-> 0], es)

\* ---- finite functions used as tables of named objects
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [n \in DOMAIN f \ {k} |-> f[n]]

Flat(ss) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, ss)
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
MaxOf(s) == FoldLeft(LAMBDA a, b : IF b > a THEN b ELSE a, 0, s)
\* base + s[a], base + s[a] + s[a+1], ... up to b
RECURSIVE SumsFrom(_, _, _, _)
SumsFrom(s, a, b, base) ==
    IF a > b THEN <<>> ELSE IF a = b THEN <<base + s[a]>>
    ELSE LET m == (a + b) \div 2  l == SumsFrom(s, a, m, base) IN l \o SumsFrom(s, m + 1, b, l[Len(l)])
Offsets(sizes) == <<0>> \o SumsFrom(sizes, 1, Len(sizes), 0)
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
NonDecreasing(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
Zero(n) == [i \in 1..n |-> 0]
\* the block that contains an index: the last one that starts at or before it,
\* which is never one of size zero
RECURSIVE BlockIn(_, _, _, _)
BlockIn(o, i, a, b) ==      \* o[a] <= i < o[b]
    IF b = a + 1 THEN a
    ELSE LET h == (a + b) \div 2 IN IF o[h] <= i THEN BlockIn(o, i, h, b) ELSE BlockIn(o, i, a, h)
BlockOf(o, i) ==
    IF Len(o) < 12 \/ i >= o[Len(o)] THEN CHOOSE b \in 1..(Len(o) - 1) : o[b] <= i /\ i < o[b + 1]
    ELSE BlockIn(o, i, 1, Len(o))
=============================================================================
