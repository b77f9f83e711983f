------------------------------ MODULE Programs -------------------------------
(* The measuring programs (csr, csr2, cswr, csbr, csbr2, cgbr, cgbr2, partition, bench,
   pbench): what they report about the files they are given.  A report is a record of the
   numbers that were printed; a field that is not printed is missing. *)
EXTENDS Tools, Measure, BlockSize
\* ---- inputs
\* the matrix in the file of that kind ("mtx", "bin", "other")
MatrixIn(D, n, kind, tv, one) ==
    IF kind = "other" \/ n \notin DOMAIN D THEN ToolBad
    ELSE IF kind = "mtx" THEN DecMM(D[n], tv, one) ELSE DecCoo(D[n], 4, 4)
Blocked == {"csbr", "csbr2", "cgbr", "cgbr2", "partition"}
\* block sizes for n indices
SizesFor(D, name, n) ==
    LET z == InArr(D, name)
    IN IF z.s # "ok" THEN z
       ELSE IF ~Summable(z.a) THEN ToolOpen
       ELSE LET o == Offsets(Ints(z.a)) IN IF Len(z.a) = 0 \/ o[Len(o)] # n THEN ToolBad ELSE IF Len(z.a) > n THEN ToolOpen ELSE [s |-> "ok", o |-> o]
\* what a program is to work on: the matrix and the boundaries of its blocks (<<>>: chosen)
Work(t, a, D, kind, tv, one) ==
    IF Len(a) = 0 \/ (t \in Blocked /\ Len(a) \notin {1, 3}) \/ (t = "pbench" /\ Len(a) # 2) \/ (t = "bench" /\ Len(a) # 1) \/ (t = "cswr" /\ Len(a) > 2) THEN ToolBad
    ELSE LET d == MatrixIn(D, a[1], kind, tv, one)
         IN IF d.s # "ok" THEN d
            ELSE IF d.r[1] > 0 \/ d.c[1] > 0 THEN ToolOpen
            ELSE IF t \in Blocked /\ Len(a) = 3
            THEN LET ro == SizesFor(D, a[2], IntOf(d.r))  co == SizesFor(D, a[3], IntOf(d.c))
                 IN IF ro.s = "bad" \/ co.s = "bad" THEN ToolBad
                    ELSE IF ro.s = "open" \/ co.s = "open" THEN ToolOpen
                    ELSE [s |-> "ok", r |-> IntOf(d.r), c |-> IntOf(d.c), es |-> d.es, ro |-> ro.o, co |-> co.o]
            ELSE IF t = "pbench"
            THEN LET p == PermOf(InArr(D, a[2]))
                 IN IF p.s # "ok" THEN [s |-> p.s]
                    ELSE IF Len(p.p) # IntOf(d.r) \/ Len(p.p) # IntOf(d.c) THEN ToolBad
                    ELSE LET q == InversePerm(p.p)
                         IN [s |-> "ok", r |-> IntOf(d.r), c |-> IntOf(d.c), ro |-> <<>>, co |-> <<>>,
                             es |-> [k \in 1..Len(d.es) |-> Entry(Pair(q[IntOf(Row(d.es[k])) + 1]), Pair(q[IntOf(Col(d.es[k])) + 1]), Val(d.es[k]))]]
            ELSE [s |-> "ok", r |-> IntOf(d.r), c |-> IntOf(d.c), es |-> d.es, ro |-> <<>>, co |-> <<>>]

\* ---- reports
\* block boundaries for a constant size of 2^b
RECURSIVE ConstFrom(_, _, _)
ConstFrom(n, b, k) == IF k = 0 THEN <<0>> ELSE Append(ConstFrom(n, b, k - 1), IF k = (IF n \div b = 0 THEN 1 ELSE n \div b) THEN n ELSE k * b)
ConstOff(n, b) == ConstFrom(n, b, IF n \div b = 0 THEN 1 ELSE n \div b)
BlocksIn(es, ro, co) == {BlockId(ro, co, es[k]) : k \in 1..Len(es)}
BlocksInRow(bs, co, k) == Cardinality({x \in bs : x \div (Len(co) - 1) = k - 1})
Percent(p, part, whole) == Near(p, 1000000 * part, whole, 1)        \* in units of 1/10000 percent
Num8(n) == LE(Pair(n), 8)
SizeChosen(m, b, w) == PickOk(Num8(m.r), Num8(m.c), 4, w, 31, Num8(b))
\* the blocked matrix that was reported is the one with these boundaries
BlockedReport(i, m, ro, co, dump) ==
    LET bs == BlocksIn(m.es, ro, co)
    IN /\ i.rows = m.r /\ i.cols = m.c
       /\ i.brows = Len(ro) - 1 /\ i.bcols = Len(co) - 1
       /\ i.nnz = Len(m.es) /\ i.blocks = Cardinality(bs)
       /\ Percent(i.pnnz, Len(m.es), m.r * m.c)
       /\ Percent(i.pblocks, Cardinality(bs), i.brows * i.bcols)
       /\ "kinds" \in DOMAIN i => Sum(i.kinds) = i.blocks
       /\ ("kinds" \in DOMAIN i /\ i.kinds[4] = 0) => Sum(i.knnz) = i.nnz
       /\ dump => \/ i.dump = <<>> /\ i.balanced = 1
                  \/ /\ Len(i.dump) = i.brows
                     /\ \A k \in 1..Len(i.dump) : /\ i.dump[k][1] = k - 1 /\ i.dump[k][2] = Len(i.dump[k]) - 2
                                                  /\ Sum(SubSeq(i.dump[k], 3, Len(i.dump[k]))) = BlocksInRow(bs, co, k)
\* the times: k summaries, each of n laps of a product of all entries
TimesFor(i, m, names, n, d) ==
    /\ Len(i.sets) = Len(names)
    /\ \A k \in 1..Len(names) :
         /\ i.sets[k].m = names[k]
         /\ d # <<>> => SomeLaps(d, n, LAMBDA t : (i.sets[k].csv = 1 \/ TimesOk(t, 1, 1000, i.sets[k].tm)) /\ RatesOk(t, 2000 * Len(m.es), i.sets[k].fl))
Pow2s == {2^k : k \in 0..16}
ReportOk(t, a, i, m, w, n, d) ==
    CASE t \in {"csr", "csr2"} -> i.rows = m.r /\ i.nnz = Len(m.es) /\ TimesFor(i, m, <<"CSR">>, n, d)
      [] t = "cswr" -> /\ i.rows = m.r /\ i.nnz = Len(m.es)
                       /\ i.width = IF Len(a) = 2 THEN i.asked ELSE 32
                       /\ i.groups = (m.r + i.width - 1) \div i.width
                       /\ TimesFor(i, m, <<"CSWR">>, n, d)
      [] t \in Blocked -> /\ IF m.ro # <<>> THEN BlockedReport(i, m, m.ro, m.co, t = "partition")
                             ELSE \E b \in Pow2s : SizeChosen(m, b, w) /\ BlockedReport(i, m, ConstOff(m.r, b), ConstOff(m.c, b), t = "partition")
                          /\ t = "partition" \/ TimesFor(i, m, <<"GSB">>, n, d)
      [] t = "bench" -> i.threads = w /\ SizeChosen(m, i.beta, w) /\ TimesFor(i, m, <<"CSR", "GSB">>, n, d)
      [] t = "pbench" -> /\ i.threads = w /\ SizeChosen(m, i.beta, w) /\ TimesFor(i, m, <<"CSR", "GSB">>, n, d)
                         /\ BlockedReport(i, m, ConstOff(m.r, i.beta), ConstOff(m.c, i.beta), FALSE)

\* one run: rc 0 success, 1 failure, 2 crash; a run that fails reports no times
RunOk(t, a, D, kind, tv, one, rc, i, w, n, d) ==
    LET m == Work(t, a, D, kind, tv, one)
    IN IF rc = 0 THEN m.s = "open" \/ (m.s = "ok" /\ ReportOk(t, a, i, m, w, n, d))
       ELSE rc = 1 /\ m.s # "ok" /\ i.sets = <<>>
=============================================================================
