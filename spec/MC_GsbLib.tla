----------------------------- MODULE MC_GsbLib -----------------------------
(* Bounded instances of GsbLib: checked exhaustively for a few names, and simulated
   to produce call histories, which are replayed into the library.  cmd records the
   last call. *)
EXTENDS GsbLib, Json, IOUtils

CONSTANTS Srcs, Mats, Vecs, Formats2, Formats3, MaxCalls
SrcNames == <<"s1", "s2", "s3">>
MatNames == <<"m1", "m2", "m3", "m4">>
VecNames == <<"v1", "v2", "v3", "v4">>
FewSrcs == <<"s1">>
FewMats == <<"m1", "m2">>
FewVecs == <<"v1", "v2">>
VARIABLES cmd, calls
mcvars == <<src, mat, vec, cmd, calls>>

\* matrices and vectors to choose from: [r, c, es, xs, ro, co, perm]
Pool == JsonDeserialize(IOEnv.VF_POOL)

\* names are used in order
Fresh(all, t) == LET free == {i \in 1..Len(all) : all[i] \notin DOMAIN t}
                 IN IF free = {} THEN {} ELSE {all[CHOOSE i \in free : \A j \in free : i <= j]}

Init == LibInit /\ cmd = <<"init">> /\ calls = 0
CNewSrc == \E s \in Fresh(Srcs, src), p \in 1..Len(Pool), k \in {2, 3} :
    NewSrc(s, k, Pool[p].r, Pool[p].c, Pool[p].es) /\ cmd' = <<"SRC", s, k, p>>
CNewVec == \E v \in Fresh(Vecs, vec), p \in 1..Len(Pool), q \in {"x", "y"} :
    NewVec(v, Pool[p][q]) /\ cmd' = <<"VEC", v, q, p>>
\* a source that fits the pool entry p
Fits(s, p) == src[s].r = Pool[p].r /\ src[s].c = Pool[p].c
CConvert == \E m \in Fresh(Mats, mat), s \in DOMAIN src :
    \E f \in (IF src[s].k = 2 THEN Formats2 ELSE Formats3) :
        IF f \in BlockedFormats
        THEN \E p \in 1..Len(Pool) :
                /\ Fits(s, p)
                /\ Convert(m, f, s, Pool[p].ro, Pool[p].co, src[s].es)
                /\ cmd' = <<"CVT", m, f, s, p>>
        ELSE Convert(m, f, s, <<>>, <<>>, src[s].es) /\ cmd' = <<"CVT", m, f, s, 0>>
\* only products that are exact in the fixed point used for recording, and small
Safe(es, x, y) == MulExact(es, x, y) /\ \A i \in 1..Len(y) : MulAdd(es, x, y)[i] \in -2000000..2000000
CMul == \E m \in DOMAIN mat, x, y \in DOMAIN vec : Mul(m, x, y) /\ Safe(mat[m].es, vec[x], vec[y]) /\ cmd' = <<"MUL", m, x, y>>
CMulSrc == \E s \in DOMAIN src, x, y \in DOMAIN vec : MulSrc(s, x, y) /\ Safe(src[s].es, vec[x], vec[y]) /\ cmd' = <<"SMUL", s, x, y>>
CSetPoint == \E s \in DOMAIN src :
    /\ src[s].ok /\ Len(src[s].es) > 0
    /\ SetPoint(s, 0, <<src[s].r - 1, 0, 6>>) /\ cmd' = <<"SETP", s, 0, src[s].r - 1, 0, 6>>
CSort == \E s \in DOMAIN src, by \in {"row", "col"} :
    SortSrc(s, StableSort(src[s].es, LAMBDA a, b : IF by = "row" THEN RowMajor(a, b) ELSE ColMajor(a, b))) /\ cmd' = <<"SORT", s, by>>
CPerm == \E s \in DOMAIN src, p \in 1..Len(Pool) :
    /\ Fits(s, p) /\ Pool[p].r = Pool[p].c
    /\ PermSrc(s, Pool[p].perm) /\ cmd' = <<"PSRC", s, p>>
CRelSrc == \E s \in DOMAIN src : RelSrc(s) /\ cmd' = <<"RELS", s>>
CRelMat == \E m \in DOMAIN mat : RelMat(m) /\ cmd' = <<"RELM", m>>
CRelVec == \E v \in DOMAIN vec : RelVec(v) /\ cmd' = <<"RELV", v>>
Call == calls < MaxCalls /\ calls' = calls + 1
\* one disjunct per call: the simulator picks the call first
Next == \/ Call /\ CNewSrc
        \/ Call /\ CNewVec
        \/ Call /\ CConvert
        \/ Call /\ CMul
        \/ Call /\ CMulSrc
        \/ Call /\ CSetPoint
        \/ Call /\ CSort
        \/ Call /\ CPerm
        \/ Call /\ CRelSrc
        \/ Call /\ CRelMat
        \/ Call /\ CRelVec
Spec == Init /\ [][Next]_mcvars

View == <<src, mat, vec, calls>>
\* multiplying twice by the same matrix adds twice, whatever happened in between to
\* other objects: a matrix never changes
MatsFixed == [][\A m \in DOMAIN mat \cap DOMAIN mat' : mat'[m] = mat[m]]_mcvars
\* products are linear: y + A x computed from zero and added equals the direct one
Linear == \A m \in DOMAIN mat, x, y \in DOMAIN vec :
    (x # y /\ Len(vec[x]) = mat[m].c /\ Len(vec[y]) = mat[m].r) =>
        LET a == MulAdd(mat[m].es, vec[x], vec[y])  b == MulAdd(mat[m].es, vec[x], Zero(Len(vec[y])))
        IN \A i \in 1..Len(a) : a[i] = vec[y][i] + b[i]
=============================================================================
