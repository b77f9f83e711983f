------------------------------- MODULE Tools --------------------------------
(* The command-line converters as functions from the files they are given to the files
   they leave.  Meaning(t, args, D): [s |-> "ok", out |-> sequence of outputs],
   [s |-> "bad"] (must fail) or [s |-> "open"].  D(name) is the byte sequence of an
   existing file, DOMAIN D the existing names; names are strings.

   An output is [n |-> name, k |-> kind, ...] and Good(o, b, tv, one) says whether the
   bytes b are what it promises. *)
EXTENDS FileFormats, Permute
ToolBad == [s |-> "bad"]
ToolOpen == [s |-> "open"]
Outs(os) == [s |-> "ok", out |-> os]

\* ---------------------------------------------------------------- ordering
EKey(by, e) == CASE by = "row" -> Row(e) \o Col(e) [] by = "col" -> Col(e) \o Row(e)
Ordered(es, keys) ==      \* stable sort by key; the keys are tuples of one length
    LET t == SortSeq([k \in 1..Len(es) |-> keys[k] \o <<k>>], LexLess)
    IN [k \in 1..Len(es) |-> es[t[k][Len(t[k])]]]
OrderedBy(es, by) == Ordered(es, [k \in 1..Len(es) |-> EKey(by, es[k])])
OrderedByBlock(es, o) == Ordered(es, [k \in 1..Len(es) |-> <<BlockId(o, o, es[k])>> \o EKey("row", es[k])])

\* ------------------------------------------------------------------ inputs
Worse(ds) == IF \E k \in 1..Len(ds) : ds[k].s = "bad" THEN ToolBad ELSE IF \E k \in 1..Len(ds) : ds[k].s = "open" THEN ToolOpen ELSE [s |-> "ok"]
InArr(D, n) == IF n \notin DOMAIN D THEN Bad ELSE DecArray(D[n], 4)
InThree(D, r, c, v, vw) == IF {r, c, v} \subseteq DOMAIN D THEN DecThree(D[r], D[c], D[v], 4, vw) ELSE Bad
Ints(ps) == [k \in 1..Len(ps) |-> IntOf(ps[k])]
\* boundaries of the blocks with sizes ps; only where TLC can handle them, the numbers of the
\* blocks and the expanded matrix
SumsTo(ps) == FoldLeft(LAMBDA a, b : IF a >= Big \/ IntOf(b) >= Big THEN Big ELSE a + IntOf(b), 0, ps)
Summable(ps) ==
    /\ Len(ps) <= 40000 /\ SumsTo(ps) < Big
    /\ ps = <<>> \/ ExpandSize(Ints(ps)) <= Big \div Len(ps)
\* what block sizes of 32 bits amount to, exactly: their sum, the numbers of the blocks (when
\* they are used) and the expanded matrix (when there is one) have to fit 32 bits
PlusPair(p, q) == LET lo == p[2] + q[2] IN <<p[1] + q[1] + lo \div Base, lo % Base>>
SumPair(ps) == FoldLeft(PlusPair, <<0, 0>>, ps)
LogUp(p) ==      \* least e with p <= 2^e
    IF Less(<<128, 0>>, p) THEN 32 ELSE IF Less(<<64, 0>>, p) THEN 31
    ELSE CHOOSE e \in 0..30 : 2^e >= IntOf(p) /\ (e = 0 \/ 2^(e - 1) < IntOf(p))
TooLarge(ps, use) ==
    \/ use \in {"ids", "expand"} /\ Len(ps) > 65536
    \/ SumPair(ps)[1] >= 256
    \/ use = "expand" /\ Len(ps) > 0 /\ LET e == LogUp(MaxPair(ps)) IN e >= 2 /\ (e = 32 \/ Len(ps) >= 2^(32 - e))
Covers(o, d) == ~Less(Pair(o[Len(o)]), d.r) /\ ~Less(Pair(o[Len(o)]), d.c)
\* a vector that is used as a permutation
PermOf(a) == IF a.s # "ok" THEN a
             ELSE IF {IntOf(a.a[k]) : k \in 1..Len(a.a)} # 0..(Len(a.a) - 1) THEN Bad
             ELSE [s |-> "ok", p |-> Ints(a.a)]
Permuted(p, a) ==
    IF a.s # "ok" THEN a
    ELSE IF \E k \in 1..Len(a.a) : IntOf(a.a[k]) >= Len(p) THEN Bad
    ELSE [s |-> "ok", a |-> [k \in 1..Len(a.a) |-> Pair(p[IntOf(a.a[k]) + 1])]]
ExpandEntry(sizes, o, n, e) == Entry(Pair(ExpandAt(o, n, IntOf(Row(e)))), Pair(ExpandAt(o, n, IntOf(Col(e)))), Val(e))
Expanded(sizes, o, es) == LET n == ExpandSize(sizes) IN [k \in 1..Len(es) |-> ExpandEntry(sizes, o, n, es[k])]

\* -------------------------------------------------------------- outputs
MatBin(n, r, c, es) == [n |-> n, k |-> "bin", r |-> r, c |-> c, es |-> es]
MatMM(n, r, c, es) == [n |-> n, k |-> "mm", r |-> r, c |-> c, es |-> es]
MatBlk(n, o, es) == [n |-> n, k |-> "blk", o |-> o, es |-> es]
Raw(n, b) == [n |-> n, k |-> "raw", b |-> b]
Good(o, b, tv, one) ==
    CASE o.k = "raw" -> b = o.b
      [] o.k = "bin" -> b = EncCoo(o.r, o.c, o.es, 4)
      [] o.k = "mm" -> LET d == DecMM(b, tv, one) IN d.s = "ok" /\ ~d.bag /\ d.r = o.r /\ d.c = o.c /\ d.es = o.es
      [] o.k = "blk" -> b = EncBlockedFile(Pair(o.o[Len(o.o)]), Pair(o.o[Len(o.o)]), o.es, o.o, o.o, 4)
EncThreeR(es) == Flat([k \in 1..Len(es) |-> LE(Row(es[k]), 4)])
EncThreeC(es) == Flat([k \in 1..Len(es) |-> LE(Col(es[k]), 4)])
EncThreeV(es) == Flat([k \in 1..Len(es) |-> Val(es[k])])

\* ------------------------------------------------------------------- tools
Convert(a, D) ==
    IF Len(a) # 5 \/ a[5] \notin {"bin", "mtx", "all"} THEN ToolBad
    ELSE LET d == InThree(D, a[1], a[2], a[3], 4)
         IN IF d.s # "ok" THEN [s |-> d.s]
            ELSE IF a[5] # "bin" /\ (d.r[1] >= 127 \/ d.c[1] >= 127) THEN ToolOpen
            ELSE LET es == OrderedBy(d.es, "col")
                 IN Outs((IF a[5] = "bin" THEN <<>> ELSE <<MatMM(a[4] \o ".mtx", d.r, d.c, es)>>)
                         \o (IF a[5] = "mtx" THEN <<>> ELSE <<MatBin(a[4] \o ".bin", d.r, d.c, es)>>))

\* a matrix in three files and block sizes that cover it
Blocks(D, d, b, use) ==
    LET z == InArr(D, b)  w == Worse(<<d, z>>)
    IN IF z.s # "ok" THEN [s |-> z.s]
       ELSE IF TooLarge(z.a, use) THEN ToolBad
       ELSE IF ~Summable(z.a) THEN (IF d.s = "bad" THEN ToolBad ELSE ToolOpen)
       ELSE IF w.s # "ok" THEN w
       ELSE LET sz == Ints(z.a)  o == Offsets(sz)
            IN IF ~Covers(o, d) THEN ToolBad ELSE [s |-> "ok", sz |-> sz, o |-> o]
ConvertBlocked(a, D) ==
    IF Len(a) # 5 THEN ToolBad
    ELSE LET d == InThree(D, a[1], a[2], a[3], 4)  b == Blocks(D, d, a[4], "ids")
         IN IF b.s # "ok" THEN b ELSE Outs(<<MatBlk(a[5], b.o, OrderedByBlock(d.es, b.o))>>)
ExpandedTool(a, D) ==
    IF Len(a) < 5 THEN ToolBad
    ELSE IF Len(a) > 5 THEN ToolOpen
    ELSE LET d == InThree(D, a[1], a[2], a[3], 4)  b == Blocks(D, d, a[4], "expand")
         IN IF b.s # "ok" THEN b
            ELSE LET n == ExpandSize(b.sz)
                 IN Outs(<<MatBin(a[5] \o ".exp" \o ToString(n), Pair(n * Len(b.sz)), Pair(n * Len(b.sz)), Expanded(b.sz, b.o, OrderedBy(d.es, "col")))>>)
PermuteTool(a, D, inverse) ==
    IF Len(a) # 3 THEN ToolBad
    ELSE LET p == PermOf(InArr(D, a[3]))
         IN IF p.s # "ok" THEN [s |-> p.s]
            ELSE LET q == IF inverse THEN InversePerm(p.p) ELSE p.p
                     r == Permuted(q, InArr(D, a[1]))  c == Permuted(q, InArr(D, a[2]))  w == Worse(<<r, c>>)
                 IN IF w.s # "ok" THEN w ELSE Outs(<<Raw(a[1] \o ".permuted", EncArray(r.a, 4)), Raw(a[2] \o ".permuted", EncArray(c.a, 4))>>)
SortTool(a, D, tv, one) ==
    IF Len(a) \notin 1..4 THEN ToolBad
    ELSE LET mm == Len(a) <= 2
             d == IF ~mm THEN InThree(D, a[1], a[2], a[3], 8)
                  ELSE IF a[1] \notin DOMAIN D THEN Bad
                  ELSE DecMM(D[a[1]], tv, one)
             b == IF Len(a) \in {2, 4} THEN Blocks(D, d, a[Len(a)], "sum") ELSE [s |-> d.s]
         IN IF b.s # "ok" THEN b
            ELSE IF d.bag /\ Cardinality({EKey("row", d.es[k]) : k \in 1..Len(d.es)}) # Len(d.es) THEN ToolOpen
            ELSE LET es == IF Len(a) \in {2, 4} THEN OrderedByBlock(d.es, b.o) ELSE OrderedBy(d.es, "row")
                 IN IF mm THEN Outs(<<MatMM(a[1] \o ".sorted", d.r, d.c, es)>>)
                    ELSE Outs(<<Raw(a[1] \o ".sorted", EncThreeR(es)), Raw(a[2] \o ".sorted", EncThreeC(es)), Raw(a[3] \o ".sorted", EncThreeV(es))>>)
Prepare(a, D) ==
    IF Len(a) # 6 THEN ToolBad
    ELSE LET p == PermOf(InArr(D, a[4]))
         IN IF p.s # "ok" THEN [s |-> p.s]
            ELSE LET r == Permuted(p.p, InArr(D, a[1]))  c == Permuted(p.p, InArr(D, a[2]))  w == Worse(<<r, c>>)
                 IN IF w.s # "ok" THEN w
                    ELSE IF a[3] \notin DOMAIN D THEN ToolBad
                    ELSE LET d == DecThree(EncArray(r.a, 4), EncArray(c.a, 4), D[a[3]], 4, 4)  b == Blocks(D, d, a[5], "expand")
                         IN IF b.s # "ok" THEN b
                            ELSE LET m == Pair(b.o[Len(b.o)])
                                     n == ExpandSize(b.sz)
                                     rs == OrderedBy(d.es, "row")
                                     \* sorted by row, then by block, then by column: the
                                     \* order of equal coordinates is kept throughout
                                     cs == OrderedBy(d.es, "col")
                                 IN Outs(<<MatBin(a[6] \o ".row", m, m, rs), MatBlk(a[6] \o ".block", b.o, OrderedByBlock(d.es, b.o)),
                                           MatBin(a[6] \o ".col", m, m, cs),
                                           MatBin(a[6] \o ".col.exp" \o ToString(n), Pair(n * Len(b.sz)), Pair(n * Len(b.sz)), Expanded(b.sz, b.o, cs))>>)

\* ---------------------------------------- double precision to single precision
\* nearest, ties to even; infinities stay, values that are too large become infinite
ToFloat(b) ==
    LET sign == b[8] \div 128
        ex == (b[8] % 128) * 16 + b[7] \div 16
        hi == (b[7] % 16) * 524288 + b[6] * 2048 + b[5] * 8 + b[4] \div 32       \* 23 bits
        lo == (b[4] % 32) * 16777216 + b[3] * 65536 + b[2] * 256 + b[1]          \* 29 bits
        up(odd, more, half) == IF more THEN 1 ELSE IF half /\ odd THEN 1 ELSE 0
        bits == IF ex = 2047 THEN 2139095040 + hi
                ELSE IF ex - 1023 > 127 THEN 2139095040
                ELSE IF ex - 1023 >= -126
                THEN (ex - 1023 + 127) * 8388608 + hi + up(hi % 2 = 1, lo > 268435456, lo = 268435456)
                ELSE LET sh == -126 - (ex - 1023)           \* denormal or zero
                     IN IF sh > 25 THEN 0
                        ELSE LET s == 8388608 + hi   q == s \div 2^sh   rest == s % 2^sh
                             IN q + up(q % 2 = 1, rest > 2^(sh - 1) \/ (rest = 2^(sh - 1) /\ lo > 0), rest = 2^(sh - 1) /\ lo = 0)
    IN LEFrom(bits, 3) \o << (bits \div 16777216) + 128 * sign >>
IsNaN8(b) == b[8] % 128 = 127 /\ b[7] >= 240 /\ (b[7] % 16 # 0 \/ \E k \in 1..6 : b[k] # 0)
ToFloats(a, D) ==
    IF Len(a) = 0 \/ \E k \in 1..Len(a) : a[k] \notin DOMAIN D \/ Len(D[a[k]]) % 8 # 0 THEN ToolBad
    ELSE IF \E k \in 1..Len(a) : \E j \in 1..(Len(D[a[k]]) \div 8) : IsNaN8(Slice(D[a[k]], (j - 1) * 8, 8)) THEN ToolOpen
    ELSE Outs([k \in 1..Len(a) |-> Raw(a[k] \o ".float", Flat([j \in 1..(Len(D[a[k]]) \div 8) |-> ToFloat(Slice(D[a[k]], (j - 1) * 8, 8))]))])
ToZero(a, D) ==
    LET z == [k \in 1..Len(a) |-> InArr(D, a[k])]
    IN IF Len(a) = 0 \/ \E k \in 1..Len(a) : z[k].s # "ok" \/ \E j \in 1..Len(z[k].a) : z[k].a[j] = <<0, 0>> THEN ToolBad
       ELSE Outs([k \in 1..Len(a) |-> Raw(a[k] \o ".zero", EncArray([j \in 1..Len(z[k].a) |-> Minus1(z[k].a[j])], 4))])

\* pprint shows a file: only whether it can be shown is specified here
Pprint(a, D) ==
    IF Len(a) = 0 \/ a[1] \notin DOMAIN D THEN ToolBad
    ELSE LET b == D[a[1]]  mode == IF Len(a) = 2 /\ a[2] \in {"triples", "blocks", "vector"} THEN a[2] ELSE "blocks"
             n == IF Len(b) >= 12 THEN IntOf(Word(b, 8, 4)) ELSE Big
         IN CASE mode = "triples" -> IF Len(b) < 12 \/ n > Len(b) \/ (n <= Len(b) /\ Len(b) < 12 + 12 * n) THEN ToolBad ELSE Outs(<<>>)
              [] mode = "blocks" -> IF Len(b) < 24 \/ n > Len(b) \/ (n <= Len(b) /\ Len(b) < 24 + 16 * n) THEN ToolBad ELSE Outs(<<>>)
              [] mode = "vector" -> Outs(<<>>)

Meaning(t, a, D, tv, one) ==
    CASE t = "convert" -> Convert(a, D)
      [] t = "convert_blocked" -> ConvertBlocked(a, D)
      [] t = "expanded" -> ExpandedTool(a, D)
      [] t = "permute" -> PermuteTool(a, D, FALSE)
      [] t = "ipermute" -> PermuteTool(a, D, TRUE)
      [] t = "sort" -> SortTool(a, D, tv, one)
      [] t = "prepare" -> Prepare(a, D)
      [] t = "double2float" -> ToFloats(a, D)
      [] t = "one2zero" -> ToZero(a, D)
      [] t = "pprint" -> Pprint(a, D)

\* names a run may leave behind when it does not succeed
MayLeave(t, a, n) ==
    CASE t = "convert" -> Len(a) = 5 /\ n \in {a[4] \o ".mtx", a[4] \o ".bin"}
      [] t = "convert_blocked" -> Len(a) = 5 /\ n = a[5]
      [] t = "expanded" -> Len(a) >= 5 /\ \E k \in 0..30 : n = a[5] \o ".exp" \o ToString(2^k)
      [] t \in {"permute", "ipermute"} -> Len(a) = 3 /\ n \in {a[1] \o ".permuted", a[2] \o ".permuted"}
      [] t = "sort" -> Len(a) \in 1..4 /\ \E k \in 1..Len(a) : n = a[k] \o ".sorted"
      [] t = "prepare" -> Len(a) = 6 /\ (n \in {a[6] \o ".row", a[6] \o ".block", a[6] \o ".col"} \/ \E k \in 0..30 : n = a[6] \o ".col.exp" \o ToString(2^k))
      [] t = "double2float" -> \E k \in 1..Len(a) : n = a[k] \o ".float"
      [] t = "one2zero" -> \E k \in 1..Len(a) : n = a[k] \o ".zero"
      [] OTHER -> FALSE

\* ---- one run: rc is 0 success, 1 failure, 2 a crash; touched = <<name, bytes>> of the
\* files that are new or differ, gone = names that disappeared
SucceededOk(m, t, a, D, touched, gone, tv, one) ==
    LET D2 == [n \in DOMAIN D \cup {touched[k][1] : k \in 1..Len(touched)} |->
                 IF \E k \in 1..Len(touched) : touched[k][1] = n THEN touched[CHOOSE k \in 1..Len(touched) : touched[k][1] = n][2] ELSE D[n]]
    IN /\ gone = <<>>
       /\ m.s # "bad"
       /\ m.s = "ok" =>
            /\ \A k \in 1..Len(m.out) : m.out[k].n \in DOMAIN D2 /\ Good(m.out[k], D2[m.out[k].n], tv, one)
            /\ \A k \in 1..Len(touched) : \E j \in 1..Len(m.out) : m.out[j].n = touched[k][1]
       /\ m.s = "open" => \A k \in 1..Len(touched) : MayLeave(t, a, touched[k][1])
FailedOk(m, t, a, D, touched, gone, hindered) ==
    /\ m.s # "ok" \/ hindered
    /\ gone = <<>>
    /\ \A k \in 1..Len(touched) : MayLeave(t, a, touched[k][1])
=============================================================================
