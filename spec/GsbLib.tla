------------------------------- MODULE GsbLib -------------------------------
(* The matrix library as a state machine: named coordinate matrices ("sources"),
   converted matrices and vectors; one action per public call.  A call affects its
   operands only, and only as described here. *)
EXTENDS Formats

VARIABLES src,   \* name -> [k: 2 | 3, r, c, es: sequence of entries, ok: contents are documented]
          mat,   \* name -> [f: format, r, c, es: entries at conversion, ro, co: block boundaries]
          vec    \* name -> sequence of integers (1/64)
libvars == <<src, mat, vec>>

Empty == <<>>
LibInit == src = Empty /\ mat = Empty /\ vec = Empty

Names(t) == DOMAIN t

BlockedFormats == {"csbr", "csbru", "csbr2", "cgbr", "cgbr2", "cgbr2b"}
\* Conversions that leave in-block coordinates behind in the source.
Consumes(f, k) == f \in {"cgbr", "cgbr2", "cgbr2b"} \/ (f \in {"csbr", "csbru"} /\ k = 2)

NewSrc(s, k, r, c, es) ==
    /\ s \notin Names(src) /\ k \in {2, 3} /\ r >= 1 /\ c >= 1 /\ Holds(InShape(es, r, c))
    /\ src' = Put(src, s, [k |-> k, r |-> r, c |-> c, es |-> es, ok |-> TRUE])
    /\ UNCHANGED <<mat, vec>>

NewVec(v, d) ==
    /\ v \notin Names(vec)
    /\ vec' = Put(vec, v, d)
    /\ UNCHANGED <<src, mat>>

SetPoint(s, i, e) ==
    /\ s \in Names(src) /\ i + 1 \in 1..Len(src[s].es) /\ InShape(<<e>>, src[s].r, src[s].c)
    /\ src' = [src EXCEPT ![s].es[i + 1] = e]
    /\ UNCHANGED <<mat, vec>>

\* ro, co: block boundaries the matrix is to have (<<>> if it is not blocked)
\* after: the entries of the source when the call returns
Convert(m, f, s, ro, co, after) ==
    /\ s \in Names(src) /\ m \notin Names(mat) /\ src[s].ok
    /\ Holds(f \in BlockedFormats => WFOffsets(ro, src[s].r) /\ WFOffsets(co, src[s].c))
    /\ mat' = Put(mat, m, [f |-> f, r |-> src[s].r, c |-> src[s].c, es |-> src[s].es, ro |-> ro, co |-> co])
    /\ src' = [src EXCEPT ![s].es = after, ![s].ok = ~Consumes(f, src[s].k)]
    /\ UNCHANGED vec
\* the same matrix by way of a file: the source is not involved any more
Load(m, f, s, ro, co) ==
    /\ s \in Names(src) /\ m \notin Names(mat) /\ src[s].ok
    /\ Holds(WFOffsets(ro, src[s].r) /\ WFOffsets(co, src[s].c))
    /\ mat' = Put(mat, m, [f |-> f, r |-> src[s].r, c |-> src[s].c, es |-> src[s].es, ro |-> ro, co |-> co])
    /\ UNCHANGED <<src, vec>>
\* a conversion that does not consume its source at most reorders it
SourceKept(f, s, after) == Consumes(f, src[s].k) \/ SameBag(src[s].es, after)

Mul(m, x, y) ==
    /\ m \in Names(mat) /\ x \in Names(vec) /\ y \in Names(vec) /\ x # y
    /\ Len(vec[x]) = mat[m].c /\ Len(vec[y]) = mat[m].r
    /\ vec' = [vec EXCEPT ![y] = MulAdd(mat[m].es, vec[x], vec[y])]
    /\ UNCHANGED <<src, mat>>

MulSrc(s, x, y) ==
    /\ s \in Names(src) /\ src[s].ok /\ x \in Names(vec) /\ y \in Names(vec) /\ x # y
    /\ Len(vec[x]) = src[s].c /\ Len(vec[y]) = src[s].r
    /\ vec' = [vec EXCEPT ![y] = MulAdd(src[s].es, vec[x], vec[y])]
    /\ UNCHANGED <<src, mat>>

\* sorting reorders the entries of a source; which order is said in Sorting.tla
SortSrc(s, after) ==
    /\ s \in Names(src) /\ src[s].ok
    /\ Holds(SameBag(src[s].es, after))
    /\ src' = [src EXCEPT ![s].es = after]
    /\ UNCHANGED <<mat, vec>>

Permuted(es, p) == [i \in 1..Len(es) |-> <<p[es[i][1] + 1], p[es[i][2] + 1], es[i][3]>>]
PermSrc(s, p) ==
    /\ s \in Names(src) /\ src[s].ok /\ src[s].r = Len(p) /\ src[s].c = Len(p)
    /\ src' = [src EXCEPT ![s].es = Permuted(@, p)]
    /\ UNCHANGED <<mat, vec>>

RelSrc(s) == s \in Names(src) /\ src' = Del(src, s) /\ UNCHANGED <<mat, vec>>
RelMat(m) == m \in Names(mat) /\ mat' = Del(mat, m) /\ UNCHANGED <<src, vec>>
RelVec(v) == v \in Names(vec) /\ vec' = Del(vec, v) /\ UNCHANGED <<src, mat>>

\* a new process
Restart == src' = Empty /\ mat' = Empty /\ vec' = Empty

\* ---- properties of the machine (checked by MC_GsbLib)
TypeOK ==
    /\ \A s \in Names(src) : src[s].ok => InShape(src[s].es, src[s].r, src[s].c)
    /\ \A m \in Names(mat) : InShape(mat[m].es, mat[m].r, mat[m].c)
\* nothing that is not an operand changes
Frame ==
    /\ \A m \in Names(mat) \cap Names(mat') : mat'[m] = mat[m]
    /\ Cardinality({s \in Names(src) \cap Names(src') : src'[s] # src[s]}) <= 1
    /\ Cardinality({v \in Names(vec) \cap Names(vec') : vec'[v] # vec[v]}) <= 1
FrameProp == [][src' = Empty \/ Frame]_libvars
=============================================================================
