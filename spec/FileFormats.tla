----------------------------- MODULE FileFormats -----------------------------
(* The meaning of matrix files, byte for byte: what a file describes, or that it is
   damaged.  Dec... : bytes -> [s |-> "ok", ...] | [s |-> "bad"] | [s |-> "open"],
   where "open" leaves the behaviour open (not well formed, but not damaged in a way
   that a reader has to notice either).

   Numbers that may exceed TLC's integers are pairs <<hi, lo>> in base 2^24.
   An entry is a flat tuple <<row hi, row lo, column hi, column lo, value bytes...>>. *)
EXTENDS Matrix

Big == 1073741824
Base == 16777216
Bad == [s |-> "bad"]
Open == [s |-> "open"]

\* ---------------------------------------------------------------- numbers
PairOf(b) ==
    LET at(i) == IF i <= Len(b) THEN b[i] ELSE 0
    IN << IF at(7) >= 32 \/ at(8) > 0 THEN Big ELSE at(4) + 256 * at(5) + 65536 * at(6) + Base * at(7),
          at(1) + 256 * at(2) + 65536 * at(3) >>
\* a pair as an integer, if it is small
IntOf(p) == IF p[1] >= 64 THEN Big ELSE p[1] * Base + p[2]
Pair(n) == <<n \div Base, n % Base>>
Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Plus1(p) == IF p[2] = Base - 1 THEN <<p[1] + 1, 0>> ELSE <<p[1], p[2] + 1>>
Minus1(p) == IF p[2] = 0 THEN <<p[1] - 1, Base - 1>> ELSE <<p[1], p[2] - 1>>
MaxPair(ps) == FoldLeft(LAMBDA a, p : IF Less(a, p) THEN p ELSE a, <<0, 0>>, ps)
\* little endian bytes of a pair
RECURSIVE LEFrom(_, _)
LEFrom(n, w) == IF w = 0 THEN <<>> ELSE <<n % 256>> \o LEFrom(n \div 256, w - 1)
LE(p, w) == IF w <= 3 THEN LEFrom(p[2], w) ELSE LEFrom(p[2], 3) \o LEFrom(p[1], w - 3)
Slice(b, from, n) == SubSeq(b, from + 1, from + n)
Word(b, from, w) == PairOf(Slice(b, from, w))
Words(b, from, n, w) == [k \in 1..n |-> Word(b, from + (k - 1) * w, w)]

Row(e) == <<e[1], e[2]>>
Col(e) == <<e[3], e[4]>>
Val(e) == SubSeq(e, 5, Len(e))
Entry(r, c, v) == r \o c \o v
InFile(es, r, c) == \A k \in 1..Len(es) : Less(Row(es[k]), r) /\ Less(Col(es[k]), c)
Ok(r, c, es) == [s |-> "ok", r |-> r, c |-> c, es |-> es, bag |-> FALSE]

\* ------------------------------------------------- single binary file (.bin)
\* rows, columns, count; all rows; all columns; all values
EncCoo(r, c, es, iw) ==
    LE(r, iw) \o LE(c, iw) \o LE(Pair(Len(es)), iw)
    \o Flat([k \in 1..Len(es) |-> LE(Row(es[k]), iw)])
    \o Flat([k \in 1..Len(es) |-> LE(Col(es[k]), iw)])
    \o Flat([k \in 1..Len(es) |-> Val(es[k])])
DecCoo(b, iw, vw) ==
    IF Len(b) < 3 * iw THEN Bad
    ELSE LET r == Word(b, 0, iw)  c == Word(b, iw, iw)  n == IntOf(Word(b, 2 * iw, iw))
         IN IF n > Len(b) \/ (n <= Len(b) /\ Len(b) # 3 * iw + n * (2 * iw + vw)) THEN Bad
            ELSE LET es == [k \in 1..n |-> Word(b, (k + 2) * iw, iw) \o Word(b, (n + k + 2) * iw, iw)
                                            \o Slice(b, (3 + 2 * n) * iw + (k - 1) * vw, vw)]
                 IN IF ~InFile(es, r, c) THEN Bad
                    ELSE IF r = <<0, 0>> \/ c = <<0, 0>> THEN Open ELSE Ok(r, c, es)
\* the same file as a CSR matrix: has to be sorted by row
DecCsrFile(b, iw, vw) ==
    LET d == DecCoo(b, iw, vw)
    IN IF d.s = "ok" /\ \E k \in 1..(Len(d.es) - 1) : Less(Row(d.es[k + 1]), Row(d.es[k])) THEN Bad ELSE d

\* ----------------------------------------------------- three binary files
EncThree(es, iw) == << Flat([k \in 1..Len(es) |-> LE(Row(es[k]), iw)]),
                       Flat([k \in 1..Len(es) |-> LE(Col(es[k]), iw)]),
                       Flat([k \in 1..Len(es) |-> Val(es[k])]) >>
\* an index that is the largest number of its type leaves no number for the shape
Countable(p, iw) == iw >= 7 \/ LE(p, iw) # [k \in 1..iw |-> 255]
DecThree(br, bc, bv, iw, vw) ==
    LET n == Len(bv) \div vw
    IN IF Len(bv) # n * vw \/ Len(br) # n * iw \/ Len(bc) # n * iw THEN Bad
       ELSE LET R == Words(br, 0, n, iw)  C == Words(bc, 0, n, iw)
                es == [k \in 1..n |-> R[k] \o C[k] \o Slice(bv, (k - 1) * vw, vw)]
            IN IF n = 0 \/ \E k \in 1..n : ~Countable(R[k], iw) \/ ~Countable(C[k], iw) THEN Open ELSE Ok(Plus1(MaxPair(R)), Plus1(MaxPair(C)), es)

\* ------------------------------------------------------------ block sizes
EncArray(ps, iw) == Flat([k \in 1..Len(ps) |-> LE(ps[k], iw)])
DecArray(b, iw) == IF Len(b) % iw # 0 THEN Bad ELSE [s |-> "ok", a |-> Words(b, 0, Len(b) \div iw, iw)]

\* ----------------------------------------------------------- blocked file
\* rows, columns, count, block-rows, block-columns, blocks; one record (block, row,
\* column, value) per entry, blocks in order
BlockAt(off, p) == BlockOf(off, IntOf(p))
BlockId(ro, co, e) == (BlockAt(ro, Row(e)) - 1) * (Len(co) - 1) + BlockAt(co, Col(e)) - 1
RecOf(b, k, iw, vw) == LET at == 6 * iw + (k - 1) * (3 * iw + vw)
                       IN [b |-> Word(b, at, iw), e |-> Word(b, at + iw, iw) \o Word(b, at + 2 * iw, iw) \o Slice(b, at + 3 * iw, vw)]
DecBlockedFile(b, iw, vw, ro, co) ==
    IF Len(b) < 6 * iw THEN Bad
    ELSE LET h == Words(b, 0, 6, iw)  n == IntOf(h[3])
         IN IF n > Len(b) \/ (n <= Len(b) /\ Len(b) # 6 * iw + n * (3 * iw + vw)) THEN Bad
            ELSE IF h[1] # Pair(ro[Len(ro)]) \/ h[2] # Pair(co[Len(co)]) \/ h[4] # Pair(Len(ro) - 1) \/ h[5] # Pair(Len(co) - 1) THEN Bad
            ELSE LET rec == [k \in 1..n |-> RecOf(b, k, iw, vw)]
                     es == [k \in 1..n |-> rec[k].e]
                 IN IF ~InFile(es, h[1], h[2]) THEN Bad
                    ELSE IF \E k \in 1..n : rec[k].b # Pair(BlockId(ro, co, es[k])) THEN Bad
                    ELSE IF \E k \in 1..(n - 1) : Less(rec[k + 1].b, rec[k].b) THEN Bad
                    ELSE IF IntOf(h[6]) # Cardinality({rec[k].b : k \in 1..n}) THEN Bad
                    ELSE IF \E k \in 1..(n - 1) : rec[k].b = rec[k + 1].b /\ Less(Row(es[k + 1]), Row(es[k])) THEN Open
                    ELSE [Ok(h[1], h[2], es) EXCEPT !.bag = TRUE]
EncBlockedFile(r, c, es, ro, co, iw) ==     \* es in block order
    LE(r, iw) \o LE(c, iw) \o LE(Pair(Len(es)), iw) \o LE(Pair(Len(ro) - 1), iw) \o LE(Pair(Len(co) - 1), iw)
    \o LE(Pair(Cardinality({BlockId(ro, co, es[k]) : k \in 1..Len(es)})), iw)
    \o Flat([k \in 1..Len(es) |-> LE(Pair(BlockId(ro, co, es[k])), iw) \o LE(Row(es[k]), iw) \o LE(Col(es[k]), iw) \o Val(es[k])])

\* ---------------------------------------------------------- Matrix Market
Space == {32, 9, 13}
Digit == 48..57
Lower(ch) == IF ch \in 65..90 THEN ch + 32 ELSE ch
LowerAll(t) == [k \in 1..Len(t) |-> Lower(t[k])]
\* pieces of b separated by characters of sep; with empty pieces or without
SplitBy(b, sep, empty) ==
    LET f == FoldLeft(LAMBDA a, ch :
                 IF ch \in sep THEN (IF empty \/ a.cur # <<>> THEN [cur |-> <<>>, out |-> Append(a.out, a.cur)] ELSE a)
                 ELSE [a EXCEPT !.cur = Append(@, ch)], [cur |-> <<>>, out |-> <<>>], b)
    IN IF f.cur # <<>> THEN Append(f.out, f.cur) ELSE f.out
FileLines(b) == SplitBy(b, {10}, TRUE)
Toks(line) == SplitBy(line, Space, FALSE)

TBanner == <<37, 37, 77, 97, 116, 114, 105, 120, 77, 97, 114, 107, 101, 116>>   \* %%MatrixMarket
TMatrix == <<109, 97, 116, 114, 105, 120>>
TCoordinate == <<99, 111, 111, 114, 100, 105, 110, 97, 116, 101>>
TReal == <<114, 101, 97, 108>>
TInteger == <<105, 110, 116, 101, 103, 101, 114>>
TPattern == <<112, 97, 116, 116, 101, 114, 110>>
TGeneral == <<103, 101, 110, 101, 114, 97, 108>>
TSymmetric == <<115, 121, 109, 109, 101, 116, 114, 105, 99>>
TSkew == <<115, 107, 101, 119, 45, 115, 121, 109, 109, 101, 116, 114, 105, 99>>

IsUInt(t) == Len(t) >= 1 /\ \A k \in 1..Len(t) : t[k] \in Digit
UInt(t) == FoldLeft(LAMBDA p, ch :
    LET lo == p[2] * 10 + (ch - 48)
    IN << IF p[1] >= 50000000 THEN Big ELSE p[1] * 10 + lo \div Base, lo % Base >>, <<0, 0>>, t)
\* could be taken for an integer by a lenient reader
Vague(t) == t[1] = 43 \/ (Len(t) >= 2 /\ t[1] = 48 /\ t[2] \in {88, 120})

\* decimal number: [sign] digits [. digits] [e [sign] digits]; automaton over the characters
NumStep(q, ch) ==
    CASE q = "start" /\ ch \in {43, 45} -> "sign"
      [] q \in {"start", "sign", "int"} /\ ch \in Digit -> "int"
      [] q \in {"start", "sign"} /\ ch = 46 -> "dot"
      [] q = "int" /\ ch = 46 -> "frac"
      [] q \in {"dot", "frac"} /\ ch \in Digit -> "frac"
      [] q \in {"int", "frac"} /\ ch \in {69, 101} -> "e"
      [] q = "e" /\ ch \in {43, 45} -> "esign"
      [] q \in {"e", "esign", "exp"} /\ ch \in Digit -> "exp"
      [] OTHER -> "no"
IsNumber(t) == FoldLeft(NumStep, "start", t) \in {"int", "frac", "exp"}
\* infinities, not-a-number and hexadecimal numbers are left open
Exotic(t) == LET u == IF t[1] \in {43, 45} THEN SubSeq(t, 2, Len(t)) ELSE t
             IN Len(u) >= 1 /\ (u[1] \in {73, 105, 78, 110} \/ (Len(u) >= 2 /\ u[1] = 48 /\ u[2] \in {88, 120}))

\* tv: the table token -> value bytes for the numbers in the file
ValueOf(tv, t) == LET k == CHOOSE k \in 1..Len(tv) : tv[k][1] = t IN tv[k][2]
NegBytes(v) == [v EXCEPT ![Len(v)] = IF @ >= 128 THEN @ - 128 ELSE @ + 128]

MMBanner(line) ==
    LET t == Toks(line)
    IN IF Len(t) < 5 THEN Bad
       ELSE IF t[1] # TBanner THEN (IF Len(t[1]) > Len(TBanner) /\ SubSeq(t[1], 1, Len(TBanner)) = TBanner THEN Open ELSE Bad)
       ELSE IF LowerAll(t[2]) # TMatrix \/ LowerAll(t[3]) # TCoordinate THEN Bad
       ELSE IF LowerAll(t[4]) \notin {TReal, TInteger, TPattern} THEN Bad
       ELSE IF LowerAll(t[5]) \notin {TGeneral, TSymmetric, TSkew} THEN Bad
       ELSE IF Len(t) > 5 THEN Open
       ELSE [s |-> "ok", field |-> LowerAll(t[4]), sym |-> LowerAll(t[5])]
\* one entry line; in the file indices start at one
MMEntry(t, pattern, r, c, tv, one) ==
    LET n == IF pattern THEN 2 ELSE 3
    IN IF Len(t) # n THEN Bad
       ELSE IF Vague(t[1]) \/ Vague(t[2]) THEN Open
       ELSE IF ~IsUInt(t[1]) \/ ~IsUInt(t[2]) THEN Bad
       ELSE IF ~pattern /\ ~IsNumber(t[3]) THEN (IF Exotic(t[3]) THEN Open ELSE Bad)
       ELSE LET i == UInt(t[1])  j == UInt(t[2])
            IN IF i = <<0, 0>> \/ j = <<0, 0>> \/ Less(r, i) \/ Less(c, j) THEN Bad
               ELSE [s |-> "ok", e |-> Entry(Minus1(i), Minus1(j), IF pattern THEN one ELSE ValueOf(tv, t[3]))]
Worst(rs) == IF \E k \in 1..Len(rs) : rs[k].s = "bad" THEN Bad ELSE IF \E k \in 1..Len(rs) : rs[k].s = "open" THEN Open ELSE [s |-> "ok"]
Mirror(e, skew) == Entry(Col(e), Row(e), IF skew THEN NegBytes(Val(e)) ELSE Val(e))
DecMM(b, tv, one) ==
    LET ls == FileLines(b)
    IN IF b = <<>> THEN Bad
       ELSE IF \E k \in 1..Len(b) : b[k] \notin (32..126 \cup {9, 10, 13}) THEN Open
       ELSE IF \E k \in 1..Len(ls) : Len(ls[k]) > 1000 THEN Open
       ELSE LET h == MMBanner(ls[1])
                rest == SelectSeq([k \in 1..(Len(ls) - 1) |-> [l |-> ls[k + 1], t |-> Toks(ls[k + 1])]], LAMBDA x : x.t # <<>>)
                \* comments come before the size line
                skip == {k \in 1..Len(rest) : \A n \in 1..k : rest[n].l[1] = 37}
                body == SubSeq(rest, Cardinality(skip) + 1, Len(rest))
            IN IF h.s # "ok" THEN h
               ELSE IF body = <<>> THEN Bad
               ELSE LET z == body[1].t
                    IN IF Len(z) < 3 THEN Bad
                       ELSE IF Len(z) > 3 \/ Vague(z[1]) \/ Vague(z[2]) \/ Vague(z[3]) THEN Open
                       ELSE IF ~IsUInt(z[1]) \/ ~IsUInt(z[2]) THEN Bad
                       ELSE IF ~IsUInt(z[3]) THEN (IF z[3][1] \in Digit THEN Open ELSE Bad)
                       ELSE LET r == UInt(z[1])  c == UInt(z[2])  n == IntOf(UInt(z[3]))
                            IN IF r[1] >= 128 \/ c[1] >= 128 THEN Open
                               ELSE IF n > Len(body) - 1 THEN Bad
                               ELSE IF r = <<0, 0>> \/ c = <<0, 0>> THEN (IF n > 0 THEN Bad ELSE Open)
                               ELSE LET p == [k \in 1..n |-> MMEntry(body[k + 1].t, h.field = TPattern, r, c, tv, one)]
                                        w == Worst(p)
                                        es == [k \in 1..n |-> p[k].e]
                                        skew == h.sym = TSkew
                                    IN IF w.s # "ok" THEN w
                                       ELSE IF Len(body) - 1 > n THEN Open
                                       ELSE IF h.sym = TGeneral THEN Ok(r, c, es)
                                       ELSE IF r # c THEN Open
                                       ELSE IF skew /\ (h.field = TPattern \/ \E k \in 1..n : Row(es[k]) = Col(es[k])) THEN Open
                                       ELSE [Ok(r, c, Flat([k \in 1..n |-> IF Row(es[k]) = Col(es[k]) THEN <<es[k]>> ELSE <<es[k], Mirror(es[k], skew)>>])) EXCEPT !.bag = TRUE]

\* does what was read agree with what the file describes?
Agrees(d, r, c, es) == (d.s = "open" /\ InFile(es, r, c)) \/ (d.s = "ok" /\ r = d.r /\ c = d.c /\ (es = d.es \/ (d.bag /\ SameBag(es, d.es))))
MayRefuse(d) == d.s # "ok"
=============================================================================
