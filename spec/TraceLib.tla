------------------------------ MODULE TraceLib ------------------------------
(* Accepts the histories recorded by drivers/lib.cpp.  Aspects says which
   observations are compared with the specification; what is left out is taken
   from the trace as it is. *)
EXTENDS GsbLib, Sorting, Permute, Listing, Json, IOUtils

CONSTANT Aspects
VARIABLES l, w      \* position in the trace; workers of the current history
tvars == <<src, mat, vec, l, w>>

Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
T == Trace[l]
On(a) == a \in Aspects
Chk(a, p) == (a => p) = TRUE
Is(e) == l <= Len(Trace) /\ Trace[l].e = e
Step == l' = l + 1 /\ w' = w

TraceInit == LibInit /\ l = 1 /\ w = 1

TBegin == Is("Begin") /\ Restart /\ l' = l + 1 /\ w' = T.w
TWorkers == Is("Workers") /\ UNCHANGED libvars /\ l' = l + 1 /\ w' = T.w
TEnd == Is("End") /\ UNCHANGED libvars /\ Step
TNewSrc == Is("NewSrc") /\ NewSrc(T.s, T.k, T.r, T.c, T.es) /\ Chk(On("src"), T.got = T.es) /\ Step
TNewVec == Is("NewVec") /\ NewVec(T.v, T.d) /\ Step
TSetPoint == Is("SetPoint") /\ SetPoint(T.s, T.i, <<T.r, T.c, T.v>>) /\ Chk(On("src"), T.after = src'[T.s].es) /\ Step

\* block boundaries asked for
RowOffs(r) == IF T.f \notin BlockedFormats THEN <<>> ELSE IF T.blk.c = 1 THEN ConstOffsets(r, T.blk.br) ELSE T.blk.ro
ColOffs(c) == IF T.f \notin BlockedFormats THEN <<>> ELSE IF T.blk.c = 1 THEN ConstOffsets(c, T.blk.bc) ELSE T.blk.co
\* the endings say how the conversion is called: "a" with an array of entries, "s" with a sorted
\* one, "x" and "y" the same two with the memory of the result given
CsrFormats == {"csr", "csr2", "bcsr", "bcsru", "csra", "csrs", "csrx", "csry", "csr2a", "csr2s", "csr2x", "csr2y"}
CrCsrFormats == {"crcsr", "crcsra", "crcsrs"}
CswrFormats == {"cswr", "cswr8", "cswra", "cswrs"}
CooFormats == {"coo1", "coo2", "coo3", "cooI", "cooE"}
TConvert ==
    /\ Is("Convert")
    /\ T.s \in Names(src)
    /\ IF "via" \in DOMAIN T
       THEN /\ Load(T.m, T.f, T.s, RowOffs(src[T.s].r), ColOffs(src[T.s].c))
            /\ Chk(On("src"), T.after = src[T.s].es)
       ELSE /\ Convert(T.m, T.f, T.s, RowOffs(src[T.s].r), ColOffs(src[T.s].c), T.after)
            /\ Chk(On("src"), SourceKept(T.f, T.s, T.after))
    /\ Chk(On("size"), T.nnz \in {-1, Len(src[T.s].es)} /\ T.rows \in {-1, src[T.s].r} /\ T.cols \in {-1, src[T.s].c})
    /\ Step

\* the product, and x as it was
TMul == /\ Is("Mul") /\ Mul(T.m, T.x, T.y)
        /\ Chk(On("mul"), vec'[T.y] = T.ya)
        /\ Chk(On("mul") \/ On("frame"), vec[T.x] = T.xa)
        /\ Step
TMulSrc == /\ Is("MulSrc") /\ MulSrc(T.s, T.x, T.y)
           /\ Chk(On("mul"), vec'[T.y] = T.ya)
           /\ Chk(On("mul") \/ On("frame"), vec[T.x] = T.xa)
           /\ Step
TSeeVec == Is("SeeVec") /\ T.v \in Names(vec) /\ Chk(On("mul") \/ On("frame"), vec[T.v] = T.d) /\ UNCHANGED libvars /\ Step
TSeeSrc == /\ Is("SeeSrc") /\ T.s \in Names(src)
           /\ Chk(On("src"), (src[T.s].ok => T.es = src[T.s].es) /\ T.r = src[T.s].r /\ T.c = src[T.s].c)
           /\ UNCHANGED libvars /\ Step
TRelSrc == Is("RelSrc") /\ RelSrc(T.s) /\ Step
TRelMat == Is("RelMat") /\ RelMat(T.m) /\ Step
TRelVec == Is("RelVec") /\ RelVec(T.v) /\ Step

\* ---- the arrays inside a converted matrix
DecodeOK(m, d) ==
    CASE m.f \in CooFormats \cup {"bcoo", "bcoo2"} -> InShape(d.es, m.r, m.c) /\ SameBag(d.es, m.es)
      [] m.f \in CsrFormats -> WFCsr(d, m.r, m.c) /\ SameBag(DecCsr(d), m.es)
      [] m.f \in CrCsrFormats -> WFCrCsr(d, m.r, m.c) /\ SameBag(DecCrCsr(d), m.es)
      [] m.f \in CswrFormats -> WFCswr(d, m.r, m.c) /\ SameBag(DecCswr(d), m.es)
      [] m.f \in {"dense", "densea", "denses"} -> WFDense(d, m.r, m.c) /\ d.val = Grid(m.es, m.r, m.c)
      [] m.f \in {"ecoo", "ecsr", "ecsrp", "eden", "edenp", "edef"} -> WFBlock(d, m.r, m.c) /\ HoldsBlock(d, m.es, m.r, m.c)
      [] m.f = "csbr2" -> WFCsbr2(d, m.r, m.c) /\ SameBag(DecCsbr2(d), m.es)
      [] m.f \in {"csbr", "csbru", "cgbr", "cgbr2", "cgbr2b"} ->
            /\ WFPtr(d.bptr, d.nb) /\ WFBlocks(d)
            /\ IF HasDense(d) THEN Grid(DecBlocks(d), m.r, m.c) = Grid(m.es, m.r, m.c) ELSE SameBag(DecBlocks(d), m.es)
      [] OTHER -> FALSE

KindName(n) == CASE n = 1 -> "coo" [] n = 2 -> "csr" [] n = 3 -> "dense" [] n = 5 -> "csrp" [] OTHER -> ""
\* entries of the matrix in block k
BlockEntries(m, d, k) == Len(InBlock(m.es, d.ro, d.co, BlockRowOf(d, k), d.bci[k] + 1))
BlockSize(m, d, k) == IF m.f = "cgbr" /\ d.blocks[k].k = "dense" THEN d.blocks[k].rows * d.blocks[k].cols ELSE BlockEntries(m, d, k)
StatsOK(m, d) ==
    \A n \in 1..6 :
        /\ d.tb[n] = Sum([k \in 1..d.nb |-> IF d.blocks[k].k = KindName(n) THEN 1 ELSE 0])
        /\ d.tn[n] = Sum([k \in 1..d.nb |-> IF d.blocks[k].k = KindName(n) THEN BlockEntries(m, d, k) ELSE 0])
BlockRowWork(d, i) == Sum(SubSeq(d.bnnz, d.bptr[i] + 1, d.bptr[i + 1]))
TilesOK(m, d) ==
    /\ d.ro = m.ro /\ d.co = m.co
    /\ IF m.f = "csbr2"
       THEN WFCsbr2(d, m.r, m.c) /\ FiledCsbr2(d) /\ SameBag(DecCsbr2(d), m.es)
       ELSE /\ WFBlockTable(d, Len(m.ro) - 1, Len(m.co) - 1)
            /\ WFBlocks(d) /\ FiledBlocks(d, m.es)
            /\ Len(d.bnnz) = d.nb
            /\ \A k \in 1..d.nb : d.bnnz[k] = BlockSize(m, d, k)
            /\ m.f \in {"cgbr", "cgbr2", "cgbr2b"} => StatsOK(m, d)
            /\ m.f = "cgbr" => d.bal = (IF \E i \in 1..(Len(d.bptr) - 1) : BlockRowWork(d, i) * (Len(d.bptr) - 1) > 2 * Len(m.es) THEN 0 ELSE 1)
PartOK(m, d) ==
    (m.f \in {"csbr", "csbru", "cgbr", "cgbr2", "cgbr2b"} /\ Len(d.part) > 0) =>
        /\ Len(d.part) = Len(d.bptr) - 1
        /\ \A i \in 1..Len(d.part) : PartitionOK(d.part[i], d.bnnz, Threshold(Len(m.es), w), d.bptr[i], d.bptr[i + 1])
TDump ==
    /\ Is("Dump") /\ T.m \in Names(mat)
    /\ Chk(On("decode"), DecodeOK(mat[T.m], T.d))
    /\ Chk(On("tiles") /\ mat[T.m].f \in BlockedFormats, TilesOK(mat[T.m], T.d))
    /\ Chk(On("part"), PartOK(mat[T.m], T.d))
    /\ UNCHANGED libvars /\ Step

\* ---- listings of a source, a CSR matrix, a vector; nothing changes
TListSrc == Is("ListSrc") /\ T.s \in Names(src) /\ Chk(On("shown") /\ src[T.s].ok, CooListed(src[T.s].es, T.t)) /\ UNCHANGED libvars /\ Step
TListMat == Is("ListMat") /\ T.m \in Names(mat) /\ mat[T.m].f \in CsrFormats /\ Chk(On("shown"), CsrListed(mat[T.m].es, mat[T.m].r, T.t)) /\ UNCHANGED libvars /\ Step
TListVec == Is("ListVec") /\ T.v \in Names(vec) /\ Chk(On("shown"), VecListed(vec[T.v], T.t)) /\ UNCHANGED libvars /\ Step
\* the summary of a converted matrix
BlockNumbers(m) == {<<BlockOf(m.ro, m.es[k][1]), BlockOf(m.co, m.es[k][2])>> : k \in 1..Len(m.es)}
\* a share of a x b in units of 1/10000 percent, where 32 bits are enough for it
PercentOk(t, part, a, b) ==
    part <= 2000 =>
    LET p == ((1000000 * part) \div a) \div b IN t - p <= 1 + p \div 100000 /\ p - t <= 1 + p \div 100000
Counts(t, ns) == \A k \in 1..Len(ns) : t[k] = Unit * ns[k]
\* blocks and entries of every kind, when the arrays have been recorded just before
Kinds(m, d, t) ==
    \A n \in 1..4 :
        LET k == <<"coo", "csr", "csrp", "dense">>[n]
        IN /\ t[8 + n] = Unit * Sum([b \in 1..d.nb |-> IF d.blocks[b].k = k THEN 1 ELSE 0])
           /\ t[12 + n] = Unit * Sum([b \in 1..d.nb |-> IF d.blocks[b].k = k THEN BlockEntries(m, d, b) ELSE 0])
Seen(m) == l > 1 /\ Trace[l - 1].e = "Dump" /\ Trace[l - 1].m = m
InfoOk(m, t) ==
    CASE m.f \in CsrFormats -> Len(t) = 2 /\ Counts(t, <<m.r, Len(m.es)>>)
      [] m.f \in CswrFormats -> Len(t) = 4 /\ Counts(t, <<m.r, (m.r * Unit + t[3] - 1) \div t[3]>>) /\ t[4] = Unit * Len(m.es)
      [] OTHER ->
           LET bs == Cardinality(BlockNumbers(m))
           IN /\ Len(t) >= 8
              /\ Counts(t, <<m.r, m.c, Len(m.ro) - 1, Len(m.co) - 1, Len(m.es), bs>>)
              /\ PercentOk(t[7], Len(m.es), m.r, m.c) /\ PercentOk(t[8], bs, Len(m.ro) - 1, Len(m.co) - 1)
              /\ IF m.f \in {"cgbr", "cgbr2", "cgbr2b"}
                 THEN Len(t) = 16 /\ Sum(SubSeq(t, 9, 12)) = Unit * bs /\ Sum(SubSeq(t, 13, 16)) = Unit * Len(m.es)
                 ELSE Len(t) = 8
TInfo == Is("Info") /\ T.m \in Names(mat) /\ Chk(On("shown"), InfoOk(mat[T.m], T.t))
         /\ Chk(On("shown") /\ mat[T.m].f \in {"cgbr", "cgbr2", "cgbr2b"} /\ Seen(T.m), Kinds(mat[T.m], Trace[l - 1].d, T.t))
         /\ Chk(On("shown") /\ mat[T.m].f \in {"cgbr", "cgbr2", "cgbr2b"} /\ Seen(T.m), T.u \in {-1, Trace[l - 1].d.bal})
         /\ UNCHANGED libvars /\ Step

\* ---- n ones spread over r x c in turn, more of them than single precision counts: converted,
\* summarised, and multiplied by ones (serially too), where T.ro, T.co bound the blocks
OnesIn(n, r, i) == (n - i + r - 1) \div r
Filled(o) == Cardinality({i \in 1..(Len(o) - 1) : o[i] < o[i + 1]})
BulkInfo(f, n, r, c, ro, co, t) ==
    CASE f \in CsrFormats -> t = <<r, n>>
      [] f \in CswrFormats -> Len(t) = 4 /\ t[1] = r /\ t[4] = n
      [] OTHER -> /\ Len(t) >= 8
                  /\ SubSeq(t, 1, 6) = <<r, c, Len(ro) - 1, Len(co) - 1, n, Filled(ro) * Filled(co)>>
                  /\ IF f \in {"cgbr", "cgbr2", "cgbr2b"} THEN Len(t) = 16 /\ Sum(SubSeq(t, 9, 12)) = Filled(ro) * Filled(co) /\ Sum(SubSeq(t, 13, 16)) = n
                     ELSE Len(t) = 8
TBulk ==
    /\ Is("Bulk")
    /\ Chk(On("mul"), T.y = [i \in 1..T.r |-> 1 + OnesIn(T.n, T.r, i - 1)] /\ T.z = [i \in 1..T.r |-> OnesIn(T.n, T.r, i - 1)])
    /\ Chk(On("size"), <<T.nnz, T.rows, T.cols>> = <<T.n, T.r, T.c>>)
    /\ Chk(On("shown"), BulkInfo(T.f, T.n, T.r, T.c, T.ro, T.co, T.i))
    /\ UNCHANGED libvars /\ Step

\* ---- sorting, permuting, expanding, block arithmetic
TSort ==
    /\ Is("Sort") /\ T.s \in Names(src)
    /\ IF On("order") THEN SortSrc(T.s, T.after) /\ Holds(SortedBy(T.by, T.arg, src[T.s].es, T.after))
       ELSE IF On("src") THEN SortSrc(T.s, T.after)
       ELSE src' = [src EXCEPT ![T.s].es = T.after] /\ UNCHANGED <<mat, vec>>
    /\ Step
TInvPerm == Is("InvPerm") /\ T.pa = T.p /\ InverseOf(T.r, T.p) /\ UNCHANGED libvars /\ Step
\* wide rows of 2^j rows of a matrix with less than 2^j rows short of 2^32 (an action of its own,
\* since the numbers of those rows are out of TLC's reach: the recorder counts them from the end)
TTall ==
    /\ Is("Tall") /\ T.w = 2^T.j /\ T.nw = 2^(32 - T.j) /\ T.rows = 1
    /\ T.at = Len(T.in) /\ T.ptr = Len(T.in) /\ SameBag(T.out, T.in) /\ UNCHANGED libvars /\ Step
TPermIdx == Is("PermIdx") /\ T.pa = T.p /\ T.out = Image(T.p, T.in) /\ UNCHANGED libvars /\ Step
TPermMat == Is("PermMat") /\ T.pa = T.p /\ T.out = Permuted(T.in, T.p) /\ UNCHANGED libvars /\ Step
TPermSrc == Is("PermSrc") /\ PermSrc(T.s, T.p) /\ T.after = src'[T.s].es /\ Step
TExpandIdx ==
    /\ Is("ExpandIdx") /\ T.ba = T.b /\ T.nb = ExpandSize(T.b) /\ T.nr = T.nb
    /\ LET off == Offsets(T.b) IN T.out = [k \in 1..Len(T.in) |-> ExpandAt(off, T.nb, T.in[k])]
    /\ UNCHANGED libvars /\ Step
TExpandMat ==
    /\ Is("ExpandMat") /\ T.nr = ExpandSize(T.b) /\ T.off = Offsets(T.b)
    /\ LET off == Offsets(T.b)
       IN T.out = [k \in 1..Len(T.in) |-> <<ExpandAt(off, T.nr, T.in[k][1]), ExpandAt(off, T.nr, T.in[k][2]), T.in[k][3]>>]
    /\ UNCHANGED libvars /\ Step
TBlockIdx ==
    /\ Is("BlockIdx")
    /\ Chk(On("tiles"), T.r = [i \in 1..T.o[Len(T.o)] |-> BlockOf(T.o, i - 1) - 1])
    /\ UNCHANGED libvars /\ Step
TBlockId ==
    /\ Is("BlockId")
    /\ Chk(On("tiles"), T.r = [i \in 1..Len(T.in) |-> (T.in[i][1] \div T.br) * T.ncols + T.in[i][2] \div T.bc])
    /\ UNCHANGED libvars /\ Step
\* the partition of blocks s..e-1 of a matrix with nnz nonzeros, bn of them in its blocks
TPart ==
    /\ Is("Part")
    /\ Chk(On("part") /\ Len(T.ch) > 0, PartitionOK(T.ch, T.bn, Threshold(T.nnz, w), T.s, T.to))
    /\ UNCHANGED libvars /\ Step
\* block number = block-row * block-columns + block-column, given as quotient and remainder
TBlockIdW ==
    /\ Is("BlockIdW")
    /\ Chk(On("tiles"), T.r = [i \in 1..Len(T.in) |-> <<T.in[i][1] \div T.br, T.in[i][2] \div T.bc>>])
    /\ UNCHANGED libvars /\ Step
TCount ==
    /\ Is("Count") /\ T.s \in Names(src)
    /\ Chk(On("tiles"), T.nr = Cardinality({src[T.s].es[i][1] : i \in 1..Len(src[T.s].es)}))
    /\ Chk(On("tiles"), T.nb = Cardinality({<<BlockOf(T.ro, src[T.s].es[i][1]), BlockOf(T.co, src[T.s].es[i][2])>> : i \in 1..Len(src[T.s].es)}))
    /\ UNCHANGED libvars /\ Step

TraceNext ==
    \/ TBegin \/ TWorkers \/ TEnd \/ TNewSrc \/ TNewVec \/ TSetPoint \/ TConvert \/ TMul \/ TMulSrc \/ TSeeVec \/ TSeeSrc
    \/ TListSrc \/ TListMat \/ TListVec \/ TInfo \/ TBulk
    \/ TRelSrc \/ TRelMat \/ TRelVec \/ TDump \/ TSort \/ TTall \/ TInvPerm \/ TPermIdx \/ TPermMat \/ TPermSrc
    \/ TExpandIdx \/ TExpandMat \/ TBlockIdx \/ TBlockId \/ TBlockIdW \/ TCount \/ TPart
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
