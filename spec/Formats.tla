------------------------------ MODULE Formats -------------------------------
(* The storage formats: how each one represents a matrix (Enc), what makes a
   representation well formed (WF), which entries it holds (Dec) and how its
   multiplication kernel walks it (Ker).  Enc and Ker follow the constructors and
   kernels of the library; MC_Formats checks on every small matrix that
       WF(Enc(es)),  Dec(Enc(es)) is es as a bag,  Ker(Enc(es), x, y) = y + A x.
   WF and Dec are applied as well to the arrays recorded from real objects. *)
EXTENDS Matrix

\* ------------------------------------------------------------------ ordering
RowMajor(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
ColMajor(a, b) == a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1])
\* stable sorting: entries are tagged with their position
StableSort(es, Less(_, _)) ==
    LET n == Len(es)
        \* number of entries that go before entry i
        Rank(i) == Cardinality({j \in 1..n : Less(es[j], es[i]) \/ (j < i /\ ~Less(es[i], es[j]))})
        Inv == [k \in 0..(n - 1) |-> CHOOSE i \in 1..n : Rank(i) = k]
    IN [k \in 1..n |-> es[Inv[k - 1]]]

\* ---------------------------------------------------------------------- CSR
\* ptr: rows + 1 positions; ind, val: one element per entry
WFPtr(ptr, n) == /\ Len(ptr) >= 1 /\ ptr[1] = 0 /\ NonDecreasing(ptr) /\ ptr[Len(ptr)] = n
WFCsr(d, r, c) ==
    /\ Len(d.ptr) = r + 1
    /\ WFPtr(d.ptr, Len(d.ind))
    /\ Len(d.val) = Len(d.ind)
    /\ \A k \in 1..Len(d.ind) : d.ind[k] \in 0..(c - 1)
DecCsr(d) ==
    Flat([i \in 1..(Len(d.ptr) - 1) |->
        [k \in 1..(d.ptr[i + 1] - d.ptr[i]) |-> <<i - 1, d.ind[d.ptr[i] + k], d.val[d.ptr[i] + k]>>]])
RowCount(es, i) == Cardinality({k \in 1..Len(es) : es[k][1] = i})
EncCsrSorted(s, r) ==
    [ptr |-> [i \in 1..(r + 1) |-> Cardinality({k \in 1..Len(s) : s[k][1] < i - 1})],
     ind |-> [k \in 1..Len(s) |-> s[k][2]],
     val |-> [k \in 1..Len(s) |-> s[k][3]]]
EncCsr(es, r, c) == EncCsrSorted(StableSort(es, RowMajor), r)
\* accumulates into y (scaled), one row after the other
KerCsrAt(d, x, y4, yo, xo) ==
    FoldLeft(LAMBDA acc, i :
        FoldLeft(LAMBDA a2, k : [a2 EXCEPT ![yo + i] = @ + d.val[k] * x[xo + d.ind[k] + 1]],
                 acc, [j \in 1..(d.ptr[i + 1] - d.ptr[i]) |-> d.ptr[i] + j]),
        y4, [i \in 1..(Len(d.ptr) - 1) |-> i])
KerCsr(d, x, y4) == KerCsrAt(d, x, y4, 0, 0)

\* ------------------------------------------------------- compressed-row CSR
WFCrCsr(d, r, c) ==
    /\ Len(d.ptr) = Len(d.rows) + 1
    /\ WFPtr(d.ptr, Len(d.ind)) /\ Increasing(d.ptr)      \* only rows with entries
    /\ Len(d.val) = Len(d.ind)
    /\ Distinct(d.rows)                                     \* each of them once
    /\ \A k \in 1..Len(d.rows) : d.rows[k] \in 0..(r - 1)
    /\ \A k \in 1..Len(d.ind) : d.ind[k] \in 0..(c - 1)
DecCrCsr(d) ==
    Flat([i \in 1..Len(d.rows) |->
        [k \in 1..(d.ptr[i + 1] - d.ptr[i]) |-> <<d.rows[i], d.ind[d.ptr[i] + k], d.val[d.ptr[i] + k]>>]])
EncCrCsr(es, r, c) ==
    LET s == StableSort(es, RowMajor)
        rows == SelectSeq([i \in 1..r |-> i - 1], LAMBDA i : RowCount(s, i) > 0)
    IN [rows |-> rows,
        ptr |-> [i \in 1..(Len(rows) + 1) |-> IF i = Len(rows) + 1 THEN Len(s) ELSE Cardinality({k \in 1..Len(s) : s[k][1] < rows[i]})],
        ind |-> [k \in 1..Len(s) |-> s[k][2]],
        val |-> [k \in 1..Len(s) |-> s[k][3]]]
KerCrCsr(d, x, y4) ==
    FoldLeft(LAMBDA acc, i :
        FoldLeft(LAMBDA a2, k : [a2 EXCEPT ![d.rows[i] + 1] = @ + d.val[k] * x[d.ind[k] + 1]],
                 acc, [j \in 1..(d.ptr[i + 1] - d.ptr[i]) |-> d.ptr[i] + j]),
        y4, [i \in 1..Len(d.rows) |-> i])

\* ---------------------------------------------------------------- wide rows
CeilDiv(a, b) == (a + b - 1) \div b
WFCswr(d, r, c) ==
    /\ d.width >= 1 /\ d.nw = CeilDiv(r, d.width)
    /\ Len(d.ptr) = d.nw + 1 /\ WFPtr(d.ptr, Len(d.row))
    /\ Len(d.ind) = Len(d.row) /\ Len(d.val) = Len(d.row)
    /\ \A w \in 1..d.nw : \A k \in (d.ptr[w] + 1)..d.ptr[w + 1] :
          /\ d.row[k] \in 0..(d.width - 1)
          /\ (w - 1) * d.width + d.row[k] < r
    /\ \A k \in 1..Len(d.ind) : d.ind[k] \in 0..(c - 1)
DecCswr(d) ==
    Flat([w \in 1..d.nw |->
        [k \in 1..(d.ptr[w + 1] - d.ptr[w]) |->
            <<(w - 1) * d.width + d.row[d.ptr[w] + k], d.ind[d.ptr[w] + k], d.val[d.ptr[w] + k]>>]])
EncCswr(es, r, c, w) ==
    LET Less(a, b) == LET wa == a[1] \div w  wb == b[1] \div w
                      IN wa < wb \/ (wa = wb /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1])))
        s == StableSort(es, Less)
    IN [width |-> w, nw |-> CeilDiv(r, w),
        ptr |-> [i \in 1..(CeilDiv(r, w) + 1) |-> Cardinality({k \in 1..Len(s) : s[k][1] \div w < i - 1})],
        row |-> [k \in 1..Len(s) |-> s[k][1] % w],
        ind |-> [k \in 1..Len(s) |-> s[k][2]],
        val |-> [k \in 1..Len(s) |-> s[k][3]]]
KerCswr(d, x, y4) ==
    FoldLeft(LAMBDA acc, w :
        FoldLeft(LAMBDA a2, k : [a2 EXCEPT ![(w - 1) * d.width + d.row[k] + 1] = @ + d.val[k] * x[d.ind[k] + 1]],
                 acc, [j \in 1..(d.ptr[w + 1] - d.ptr[w]) |-> d.ptr[w] + j]),
        y4, [w \in 1..d.nw |-> w])

\* -------------------------------------------------------------------- dense
WFDense(d, r, c) == Len(d.val) = r * c
EncDense(es, r, c) == [val |-> Grid(es, r, c), rows |-> r, cols |-> c]
KerDense(d, r, c, x, y4, yo, xo) ==
    FoldLeft(LAMBDA acc, p : [acc EXCEPT ![yo + p[1] + 1] = @ + d.val[p[1] * c + p[2] + 1] * x[xo + p[2] + 1]],
             y4, Flat([i \in 1..r |-> [j \in 1..c |-> <<i - 1, j - 1>>]]))

\* ------------------------------------------------------------------ blocking
\* boundaries for a constant block size: the last block takes the remainder
ConstOffsets(n, b) ==
    LET k == IF n \div b = 0 THEN 1 ELSE n \div b
    IN [i \in 1..(k + 1) |-> IF i = k + 1 THEN n ELSE (i - 1) * b]
WFOffsets(o, n) == Len(o) >= 2 /\ o[1] = 0 /\ o[Len(o)] = n /\ NonDecreasing(o)
InBlock(es, ro, co, br, bc) ==
    SelectSeq(es, LAMBDA e : ro[br] <= e[1] /\ e[1] < ro[br + 1] /\ co[bc] <= e[2] /\ e[2] < co[bc + 1])

\* one block of size r x c
WFBlock(b, r, c) ==
    CASE b.k \in {"csr", "csrp"} -> WFCsr(b, r, c)
      [] b.k = "coo" -> InShape(b.es, r, c)
      [] b.k = "dense" -> b.rows = r /\ b.cols = c /\ WFDense(b, r, c)
      [] OTHER -> FALSE
\* does block b (of size r x c) hold exactly the entries es (local coordinates)?
HoldsBlock(b, es, r, c) ==
    CASE b.k \in {"csr", "csrp"} -> SameBag(DecCsr(b), es)
      [] b.k = "coo" -> SameBag(b.es, es)
      [] b.k = "dense" -> b.val = Grid(es, r, c)
      [] OTHER -> FALSE
EncBlock(kind, es, r, c) ==
    CASE kind \in {"csr", "csrp"} -> [k |-> kind] @@ EncCsr(es, r, c)
      [] kind = "coo" -> [k |-> kind, es |-> es]
      [] kind = "dense" -> [k |-> kind] @@ EncDense(es, r, c)
KerBlock(b, r, c, x, y4, yo, xo) ==
    CASE b.k \in {"csr", "csrp"} -> KerCsrAt(b, x, y4, yo, xo)
      [] b.k = "coo" -> FoldLeft(LAMBDA acc, e : [acc EXCEPT ![yo + e[1] + 1] = @ + e[3] * x[xo + e[2] + 1]], y4, b.es)
      [] b.k = "dense" -> KerDense(b, r, c, x, y4, yo, xo)

Local(es, ro, co, br, bc) ==
    LET s == InBlock(es, ro, co, br, bc) IN [k \in 1..Len(s) |-> <<s[k][1] - ro[br], s[k][2] - co[bc], s[k][3]>>]

\* bptr: per block-row position of its first block; bci: block-column of each block
WFBlockTable(d, nbr, nbc) ==
    /\ Len(d.bptr) = nbr + 1 /\ WFPtr(d.bptr, d.nb)
    /\ Len(d.bci) = d.nb
    /\ \A i \in 1..nbr : \A k \in (d.bptr[i] + 1)..d.bptr[i + 1] :
          /\ d.bci[k] \in 0..(nbc - 1)
          /\ (k > d.bptr[i] + 1 => d.bci[k - 1] < d.bci[k])
BlockRowOf(d, k) == CHOOSE i \in 1..(Len(d.bptr) - 1) : d.bptr[i] < k /\ k <= d.bptr[i + 1]
BRows(d, i) == d.ro[i + 1] - d.ro[i]
BCols(d, j) == d.co[j + 1] - d.co[j]

\* the arrays of every block are well formed
WFBlocks(d) ==
    /\ Len(d.blocks) = d.nb
    /\ \A i \in 1..(Len(d.bptr) - 1) : \A k \in (d.bptr[i] + 1)..d.bptr[i + 1] :
          WFBlock(d.blocks[k], BRows(d, i), BCols(d, d.bci[k] + 1))
\* every entry is in the block that contains its coordinates, every block has one
FiledBlocks(d, es) ==
    /\ \A i \in 1..(Len(d.bptr) - 1) : \A k \in (d.bptr[i] + 1)..d.bptr[i + 1] :
          LET in == Local(es, d.ro, d.co, i, d.bci[k] + 1)
          IN Len(in) > 0 /\ HoldsBlock(d.blocks[k], in, BRows(d, i), BCols(d, d.bci[k] + 1))
    /\ \A n \in 1..Len(es) :
          LET i == BlockOf(d.ro, es[n][1])  j == BlockOf(d.co, es[n][2])
          IN \E k \in (d.bptr[i] + 1)..d.bptr[i + 1] : d.bci[k] = j - 1
\* the entries of a blocked matrix without dense blocks, in matrix coordinates
DecBlocks(d) ==
    Flat([k \in 1..d.nb |->
        LET i == BlockRowOf(d, k)  j == d.bci[k] + 1  b == d.blocks[k]
            es == CASE b.k = "coo" -> b.es
                    [] b.k = "dense" -> [p \in 1..Len(b.val) |-> <<(p - 1) \div b.cols, (p - 1) % b.cols, b.val[p]>>]
                    [] OTHER -> DecCsr(b)
        IN [n \in 1..Len(es) |-> <<es[n][1] + d.ro[i], es[n][2] + d.co[j], es[n][3]>>]])
HasDense(d) == \E k \in 1..d.nb : d.blocks[k].k = "dense"
\* blocks present, in order
EncBlocked(es, ro, co, Kind(_, _, _, _)) ==
    LET nbr == Len(ro) - 1  nbc == Len(co) - 1
        All == Flat([i \in 1..nbr |-> [j \in 1..nbc |-> <<i, j>>]])
        Here == SelectSeq(All, LAMBDA p : Len(InBlock(es, ro, co, p[1], p[2])) > 0)
    IN [ro |-> ro, co |-> co, nb |-> Len(Here),
        bptr |-> [i \in 1..(nbr + 1) |-> Cardinality({k \in 1..Len(Here) : Here[k][1] < i})],
        bci |-> [k \in 1..Len(Here) |-> Here[k][2] - 1],
        blocks |-> [k \in 1..Len(Here) |->
            LET i == Here[k][1]  j == Here[k][2]  s == Local(es, ro, co, i, j)
            IN EncBlock(Kind(Len(s), ro[i + 1] - ro[i], co[j + 1] - co[j], k), s, ro[i + 1] - ro[i], co[j + 1] - co[j])]]
KerBlocked(d, x, y4) ==
    FoldLeft(LAMBDA acc, k :
        LET i == BlockRowOf(d, k)  j == d.bci[k] + 1
        IN KerBlock(d.blocks[k], BRows(d, i), BCols(d, j), x, acc, d.ro[i], d.co[j]),
        y4, [k \in 1..d.nb |-> k])

\* CSBR2: every block has row pointers of its own into shared arrays, the stored
\* columns are those of the matrix
WFCsbr2(d, r, c) ==
    /\ Len(d.bptr) = Len(d.ro) /\ WFPtr(d.bptr, d.nb) /\ Len(d.ptrs) = d.nb
    /\ Len(d.ind) = Len(d.val)
    /\ \A k \in 1..d.nb :
          /\ Len(d.ptrs[k]) = BRows(d, BlockRowOf(d, k)) + 1
          /\ NonDecreasing(d.ptrs[k])
          /\ d.ptrs[k][1] = IF k = 1 THEN 0 ELSE d.ptrs[k - 1][Len(d.ptrs[k - 1])]
    /\ (d.nb = 0 => Len(d.ind) = 0)
    /\ (d.nb > 0 => d.ptrs[d.nb][Len(d.ptrs[d.nb])] = Len(d.ind))
    /\ \A k \in 1..Len(d.ind) : d.ind[k] \in 0..(c - 1)
DecCsbr2Block(d, k) ==
    LET p == d.ptrs[k]  i == BlockRowOf(d, k)
    IN Flat([q \in 1..(Len(p) - 1) |-> [n \in 1..(p[q + 1] - p[q]) |-> <<d.ro[i] + q - 1, d.ind[p[q] + n], d.val[p[q] + n]>>]])
DecCsbr2(d) == Flat([k \in 1..d.nb |-> DecCsbr2Block(d, k)])
\* blocks of a block-row are not empty and lie in one block-column each, in order
FiledCsbr2(d) ==
    \A i \in 1..(Len(d.ro) - 1) :
        LET B == [k \in (d.bptr[i] + 1)..d.bptr[i + 1] |-> DecCsbr2Block(d, k)]
        IN /\ \A k \in DOMAIN B : Len(B[k]) > 0
           /\ \A k \in DOMAIN B : \A n \in 1..Len(B[k]) : BlockOf(d.co, B[k][n][2]) = BlockOf(d.co, B[k][1][2])
           /\ \A k \in DOMAIN B : (k + 1) \in DOMAIN B => BlockOf(d.co, B[k][1][2]) < BlockOf(d.co, B[k + 1][1][2])
EncCsbr2(es, ro, co) ==
    LET e == EncBlocked(es, ro, co, LAMBDA a, b, c, k : "csr")
        Start(k) == Sum([n \in 1..(k - 1) |-> Len(e.blocks[n].ind)])
    IN [ro |-> ro, co |-> co, nb |-> e.nb, bptr |-> e.bptr,
        ptrs |-> [k \in 1..e.nb |-> [q \in 1..Len(e.blocks[k].ptr) |-> Start(k) + e.blocks[k].ptr[q]]],
        ind |-> Flat([k \in 1..e.nb |-> [n \in 1..Len(e.blocks[k].ind) |-> e.blocks[k].ind[n] + co[e.bci[k] + 1]]]),
        val |-> Flat([k \in 1..e.nb |-> e.blocks[k].val])]
KerCsbr2(d, x, y4) ==
    FoldLeft(LAMBDA acc, k : KerCsrAt([ptr |-> d.ptrs[k], ind |-> d.ind, val |-> d.val], x, acc, d.ro[BlockRowOf(d, k)], 0),
             y4, [k \in 1..d.nb |-> k])

\* ---------------------------------------------------------------- partitions
\* PARTITION_FACTOR * nnz / (PARTITION_FACTOR_INV * workers)
Threshold(nnz, w) == nnz \div (2 * w)
\* partition_blockrow: bn[k] nonzeros of block k of the block-row, blocks s..e-1
RECURSIVE ChunksFrom(_, _, _, _, _, _)
ChunksFrom(bn, thr, b, e, acc, out) ==
    IF b >= e THEN Append(out, e)
    ELSE LET n == acc + bn[b + 1]
         IN IF n > thr /\ b < e - 1 THEN ChunksFrom(bn, thr, b + 1, e, 0, Append(out, b))
            ELSE ChunksFrom(bn, thr, b + 1, e, n, out)
Chunks(bn, thr, s, e) == ChunksFrom(bn, thr, s, e, 0, <<s>>)

\* what a partition of blocks s..e-1 has to satisfy, whatever cuts it makes
Covers(ch, s, e) == Len(ch) >= 2 /\ ch[1] = s /\ ch[Len(ch)] = e /\ NonDecreasing(ch)
Work(bn, a, b) == Sum([k \in 1..(b - a) |-> bn[a + k]])     \* blocks a..b-1
\* beyond its first block (and the last block of the block-row, which is never
\* cut off) a chunk holds at most the threshold
ChunkBounded(bn, thr, a, b, e) ==
    LET last == IF b = e THEN b - 1 ELSE b IN last > a + 1 => Work(bn, a + 1, last) <= thr
Balanced(ch, bn, thr, s, e) == \A i \in 1..(Len(ch) - 1) : ChunkBounded(bn, thr, ch[i], ch[i + 1], e)
\* every cut is paid for by more than the threshold of work
FewChunks(ch, bn, thr, s, e) == Len(ch) - 2 <= Work(bn, s, e) \div (thr + 1)
PartitionOK(ch, bn, thr, s, e) == Covers(ch, s, e) /\ Balanced(ch, bn, thr, s, e) /\ FewChunks(ch, bn, thr, s, e)
=============================================================================
