----------------------------- MODULE MC_Formats -----------------------------
(* Every small matrix, blocking and wide-row height: the representations of
   Formats.tla are well formed, hold the matrix they were made from, and their
   kernels add A x.  The states are dumped and replayed into the library. *)
EXTENDS Formats

CONSTANTS MaxR, MaxC, MaxN, Vals, MaxBlocks
VARIABLES r, c, ro, co, w, es
vars == <<r, c, ro, co, w, es>>

OffsetSeqs(n) == {o \in UNION {[1..(k + 1) -> 0..n] : k \in 1..MaxBlocks} : WFOffsets(o, n) /\ Len(o) - 1 <= n}
Init == /\ r \in 1..MaxR /\ c \in 1..MaxC
        /\ ro \in OffsetSeqs(r) /\ co \in OffsetSeqs(c)
        /\ w \in 1..2
        /\ es = <<>>
Next == /\ Len(es) < MaxN
        /\ \E i \in 0..(r - 1), j \in 0..(c - 1), v \in Vals : es' = Append(es, <<i, j, v>>)
        /\ UNCHANGED <<r, c, ro, co, w>>
Spec == Init /\ [][Next]_vars

X == [j \in 1..c |-> 4 * (2 * j - 3)]
Y == [i \in 1..r |-> 5 * i - 7]
Want == MulAdd(es, X, Y)
Is(y4) == [i \in 1..r |-> y4[i] \div 4] = Want /\ \A i \in 1..r : y4[i] % 4 = 0
Y4 == Scaled(Y)

FlatOK ==
    /\ LET d == EncCsr(es, r, c) IN WFCsr(d, r, c) /\ SameBag(DecCsr(d), es) /\ Is(KerCsr(d, X, Y4))
    /\ LET d == EncCrCsr(es, r, c) IN WFCrCsr(d, r, c) /\ SameBag(DecCrCsr(d), es) /\ Is(KerCrCsr(d, X, Y4))
    /\ LET d == EncCswr(es, r, c, w) IN WFCswr(d, r, c) /\ SameBag(DecCswr(d), es) /\ Is(KerCswr(d, X, Y4))
    /\ LET d == EncDense(es, r, c) IN WFDense(d, r, c) /\ Is(KerDense(d, r, c, X, Y4, 0, 0))
Kinds == <<"csr", "coo", "dense">>
BlockedOK ==
    /\ \A n \in 1..4 :
          LET d == EncBlocked(es, ro, co, LAMBDA nn, rr, cc, k : IF n = 4 THEN Kinds[(k % 3) + 1] ELSE Kinds[n])
          IN /\ WFBlockTable(d, Len(ro) - 1, Len(co) - 1) /\ WFBlocks(d) /\ FiledBlocks(d, es)
             /\ (~HasDense(d) => SameBag(DecBlocks(d), es))
             /\ Grid(DecBlocks(d), r, c) = Grid(es, r, c)
             /\ Is(KerBlocked(d, X, Y4))
    /\ LET d == EncCsbr2(es, ro, co)
       IN WFCsbr2(d, r, c) /\ FiledCsbr2(d) /\ SameBag(DecCsbr2(d), es) /\ Is(KerCsbr2(d, X, Y4))
\* the constant-size boundaries are boundaries, and no block but the last differs in size
ConstOK ==
    \A b \in 1..(r + 1) :
        LET o == ConstOffsets(r, b)
        IN WFOffsets(o, r) /\ Len(o) - 1 <= r /\ \A i \in 1..(Len(o) - 2) : o[i + 1] - o[i] = b
Inv == FlatOK /\ BlockedOK /\ ConstOK
=============================================================================
