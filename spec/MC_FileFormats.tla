--------------------------- MODULE MC_FileFormats ---------------------------
(* Design-level check of the file formats: every small matrix written in every format
   and read again; every truncation, every wrong count and every entry outside of the
   shape.  The states are replayed against the readers of the library. *)
EXTENDS FileStore

CONSTANTS MaxDim, MaxEntries, Symmetries
VARIABLES m, k, x, files
vars == <<m, k, x, files, disk>>

Iw == 4
Vw == 4
Vals == <<<<0, 0, 128, 63>>, <<0, 0, 0, 192>>>>         \* 1 and -2 as floats
Toks2 == <<<<49>>, <<45, 50>>>>
TV == <<<<Toks2[1], Vals[1]>>, <<Toks2[2], Vals[2]>>, <<<<50>>, <<0, 0, 0, 64>>>>>>
One == Vals[1]

Entries(r, c) == [r : 1..r, c : 1..c, v : 1..2]
Seqs(S, n) == UNION {[1..i -> S] : i \in 0..n}
Matrices == UNION {{[r |-> r, c |-> c, es |-> es] : es \in Seqs(Entries(r, c), MaxEntries)} : r \in 1..MaxDim, c \in 1..MaxDim}
Flat2(a) == [j \in 1..Len(a) |-> Entry(Pair(a[j].r - 1), Pair(a[j].c - 1), Vals[a[j].v])]

\* the text of a Matrix Market file
Dec10(n) == <<48 + n>>
Line(ws) == FoldLeft(LAMBDA a, t : IF a = <<>> THEN t ELSE a \o <<32>> \o t, <<>>, ws) \o <<10>>
MMText(a, field, sym) ==
    Line(<<TBanner, TMatrix, TCoordinate, field, sym>>)
    \o Line(<<Dec10(a.r), Dec10(a.c), Dec10(Len(a.es))>>)
    \o Flat([j \in 1..Len(a.es) |-> Line(<<Dec10(a.es[j].r), Dec10(a.es[j].c)>> \o (IF field = TPattern THEN <<>> ELSE <<Toks2[a.es[j].v]>>))])
Sym(s) == CASE s = "mmg" -> TGeneral [] s = "mms" -> TSymmetric [] s = "mmk" -> TSkew [] s = "mmp" -> TGeneral
Lower2(a) == \A j \in 1..Len(a.es) : a.es[j].r >= a.es[j].c
Strict(a) == \A j \in 1..Len(a.es) : a.es[j].r > a.es[j].c
RowSorted(a) == \A j \in 1..(Len(a.es) - 1) : a.es[j].r <= a.es[j + 1].r
ro == [j \in 1..(m.r + 1) |-> j - 1]              \* blocks of one row,
co == IF m.c = 1 THEN <<0, 1>> ELSE <<0, 1, m.c>>
InBlocks(a) == LET f == Flat2(a.es) IN \A j \in 1..(Len(f) - 1) : BlockId(ro, co, f[j]) <= BlockId(ro, co, f[j + 1])
Kinds == {"bin", "csr", "three", "blk", "mmg", "mmp"} \cup Symmetries
Applies(a, kk) ==
    CASE kk = "csr" -> RowSorted(a)
      [] kk = "blk" -> InBlocks(a)
      [] kk = "mms" -> a.r = a.c /\ Lower2(a)
      [] kk = "mmk" -> a.r = a.c /\ Strict(a)
      [] kk = "three" -> a.es # <<>>
      [] OTHER -> TRUE
Written(a, kk) ==
    LET es == Flat2(a.es)
    IN CASE kk \in {"bin", "csr"} -> <<EncCoo(Pair(a.r), Pair(a.c), es, Iw)>>
         [] kk = "three" -> EncThree(es, Iw)
         [] kk = "blk" -> <<EncBlockedFile(Pair(a.r), Pair(a.c), es, ro, co, Iw)>>
         [] kk = "mmp" -> <<MMText(a, TPattern, TGeneral)>>
         [] OTHER -> <<MMText(a, TReal, Sym(kk))>>
\* what reading should give
Meant(a, kk) ==
    LET es == Flat2(a.es)
    IN CASE kk = "mmp" -> [j \in 1..Len(es) |-> Entry(Row(es[j]), Col(es[j]), One)]
         [] kk \in {"mms", "mmk"} -> Flat([j \in 1..Len(es) |-> IF a.es[j].r = a.es[j].c THEN <<es[j]>> ELSE <<es[j], Mirror(es[j], kk = "mmk")>>])
         [] OTHER -> es
IsMM(kk) == kk \notin {"bin", "csr", "three", "blk"}
Arg == [tv |-> TV, one |-> One, ro |-> ro, co |-> co]
Meaning == Describe(IF IsMM(k) THEN "mm" ELSE k, files, Arg, Iw, Vw)

Init == /\ m \in Matrices /\ k \in Kinds /\ Applies(m, k)
        /\ x = <<"whole">> /\ files = Written(m, k) /\ FileInit
\* one of the files loses its end
Cut == x = <<"whole">> /\ \E f \in 1..Len(files) : \E n \in 0..(Len(files[f]) - 1) :
           x' = <<"cut", f, n>> /\ files' = [files EXCEPT ![f] = SubSeq(@, 1, n)]
\* something is appended
More == x = <<"whole">> /\ ~IsMM(k) /\ \E f \in 1..Len(files) : \E n \in {1, 4} :
           x' = <<"more", f, n>> /\ files' = [files EXCEPT ![f] = @ \o [j \in 1..n |-> 0]]
\* a number in the header of a binary file or an index is changed
Fields == CASE k \in {"bin", "csr"} -> 0..(2 + 2 * Len(m.es)) [] k = "blk" -> 0..5 [] OTHER -> {}
Change == x = <<"whole">> /\ \E f \in Fields : \E n \in {0, 1, 2, 3, 255} :
           /\ Slice(files[1], f * Iw, Iw) # LE(Pair(n), Iw)
           /\ x' = <<"change", f, n>>
           /\ files' = <<Slice(files[1], 0, f * Iw) \o LE(Pair(n), Iw) \o SubSeq(files[1], (f + 1) * Iw + 1, Len(files[1]))>>
Next == (Cut \/ More \/ Change) /\ UNCHANGED <<m, k, disk>>
Spec == Init /\ [][Next]_vars

\* ---- what has to hold
RoundTrip == x = <<"whole">> =>
    /\ Meaning.s = "ok" /\ Meaning.es = Meant(m, k)
    /\ k # "three" => Meaning.r = Pair(m.r) /\ Meaning.c = Pair(m.c)
CutRefused == x[1] = "cut" => IF IsMM(k) THEN (Meaning.s = "ok" => Meaning.es = Meant(m, k)) ELSE Meaning.s = "bad"
MoreRefused == x[1] = "more" => Meaning.s = "bad"
\* a changed number is noticed or it changes the shape or an index, never the number of entries
ChangeSeen == (x[1] = "change" /\ Meaning.s = "ok") => (k # "blk" /\ Len(Meaning.es) = Len(m.es) /\ InFile(Meaning.es, Meaning.r, Meaning.c))
=============================================================================
