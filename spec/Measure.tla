------------------------------- MODULE Measure -------------------------------
(* What the library reports about results and times.  Vector elements are integers in
   units of 1/4; a reported real number R in units of 1/s is the nearest integer, and
   Near says whether it can stand for a fraction. *)
EXTENDS Matrix
Abs(x) == IF x < 0 THEN -x ELSE x
\* |r - num/den| <= tol + a little of the fraction (numbers are printed with six digits or more)
Near(r, num, den, tol) == Abs(r * den - num) <= tol * den + Abs(num) \div 100000
Up3(s) == SortSeq(s, LAMBDA a, b : a < b)

\* ---- comparison of two vectors
Wrong(a, b) == {i \in 1..Len(a) : a[i] # b[i]}
WorstOf(a, b) == MaxOf([i \in 1..Len(a) |-> Abs(a[i] - b[i])])
\* rc: result; wrong, worst: what was printed (-1: not printed); same: "same result" was printed
CompareOk(a, b, rc, wrong, worst, same) ==
    IF Wrong(a, b) = {} THEN rc = 0 /\ same = 1 /\ wrong = -1
    ELSE rc # 0 /\ same = 0 /\ wrong = Cardinality(Wrong(a, b)) /\ Near(worst, WorstOf(a, b), 1, 0)

\* ---- statistics; r in units of 1/64
Mean64(s, r) == Near(r, 16 * Sum(s), Len(s), 1)
Median8(s) == LET t == Up3(s)  n == Len(s) IN IF n % 2 = 1 THEN 2 * t[n \div 2 + 1] ELSE t[n \div 2] + t[n \div 2 + 1]
Median64(s, r) == Abs(r - 8 * Median8(s)) <= 0
SumSquares(s) == FoldLeft(LAMBDA a, x : a + x * x, 0, s)
\* n^2 times the variance, in units of 1/4096
Var(s) == 256 * (Len(s) * SumSquares(s) - Sum(s) * Sum(s))
Dev64(s, r) == r >= 0 /\ r <= 16 * (Up3(s)[Len(s)] - Up3(s)[1]) + 1 /\ (IF r = 0 THEN 0 ELSE (r - 1) * (r - 1)) * Len(s) * Len(s) <= Var(s) /\ Var(s) <= (r + 1) * (r + 1) * Len(s) * Len(s)
\* s and r may be given as distances to one value: the mean and the median move with it, the
\* deviation does not
StatOk(k, s, r) == CASE k = "MEAN" -> Mean64(s, r) [] k = "MEDIAN" -> Median64(s, r) [] k = "STD" -> Dev64(s, r)

\* ---- timing summaries of the times t: minimum, upper median, mean, maximum, as
\* fractions <<num, den>> of the unit of t
Summary(t) == LET s == Up3(t)  n == Len(t) IN << <<s[1], 1>>, <<s[n \div 2 + 1], 1>>, <<Sum(t), n>>, <<s[n], 1>> >>
\* printed times (in units of 1/per of the unit of t; negative: not printed) and rates: two
\* operations for each of nnz entries, amount = 2 * nnz in the unit in which a rate of one
\* is one per unit of t
TimesOk(t, mul, per, tm) == LET s == Summary(t) IN \A k \in 1..4 : tm[k] >= 0 /\ Near(tm[k] * per, s[k][1] * mul, s[k][2], per)
RatesOk(t, amount, fl) == LET s == Summary(t) IN \A k \in 1..4 : fl[k] >= 0 /\ Abs(fl[k] * s[k][1] - amount * s[k][2]) <= s[k][1] + (amount * s[k][2]) \div 50000

\* ---- a program that measures: deltas between the readings of its clock.  The reported
\* times are those between pairs of readings, n of them one after the other
Lap(d, from, stride, n) == [k \in 1..n |-> d[from + (k - 1) * stride]]
SomeLaps(d, n, P(_)) == \E st \in 1..2 : \E f \in 1..(Len(d) - (n - 1) * st) : P(Lap(d, f, st, n))
=============================================================================
