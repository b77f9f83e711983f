------------------------------ MODULE MC_Tools -------------------------------
(* Bounded instances of Tools: every small matrix, permutation and list of block sizes.
   The outputs decode to matrices that are related as the documentation says. *)
EXTENDS Tools
CONSTANTS M, N, MaxBlock        \* matrix size, most entries, largest block
VARIABLE x
V == <<0, 0, 128, 63>>
V2 == <<0, 0, 0, 64>>
Ent == { Entry(Pair(i), Pair(j), v) : i \in 0..(M - 1), j \in 0..(M - 1), v \in {V, V2} }
Mats == UNION { [1..n -> Ent] : n \in 1..N }
Perms == { p \in [1..M -> 0..(M - 1)] : IsPerm(p) }
SizesOf == { s \in UNION { [1..k -> 0..MaxBlock] : k \in 1..3 } : Sum(s) >= M /\ Sum(s) <= M + 1 }
Started == x.es # <<>>
Init == x \in [es : {<<>>}, p : Perms, z : SizesOf]
Next == ~Started /\ \E es \in Mats : x' = [x EXCEPT !.es = es]
Disk == LET t == EncThree(x.es, 4)
        IN [n \in {"r", "c", "v", "p", "z"} |-> CASE n = "r" -> t[1] [] n = "c" -> t[2] [] n = "v" -> t[3]
              [] n = "p" -> EncArray([k \in 1..Len(x.p) |-> Pair(x.p[k])], 4) [] n = "z" -> EncArray([k \in 1..Len(x.z) |-> Pair(x.z[k])], 4)]
O == Offsets(x.z)
Run(t, a) == Meaning(t, a, Disk, <<>>, V)
Prep == Run("prepare", <<"r", "c", "v", "p", "z", "o">>)
Keys(es) == [k \in 1..Len(es) |-> Row(es[k]) \o Col(es[k])]
\* permuting and permuting back restores the index files
Back == Started => LET f == Run("permute", <<"r", "c", "p">>)
            D2 == [n \in {"r", "c", "p"} |-> CASE n = "p" -> Disk["p"] [] n = "r" -> f.out[1].b [] n = "c" -> f.out[2].b]
            g == Meaning("ipermute", <<"r", "c", "p">>, D2, <<>>, V)
        IN f.s = "ok" /\ g.s = "ok" /\ g.out[1].b = Disk["r"] /\ g.out[2].b = Disk["c"]
\* the four outputs of prepare hold the permuted matrix; the blocked file is readable
PrepareAgrees == Started =>
    /\ Prep.s = "ok"
    /\ Prep.out[1].n = "o.row" /\ Prep.out[2].n = "o.block" /\ Prep.out[3].n = "o.col"
    /\ SameBag(Prep.out[1].es, Prep.out[2].es) /\ SameBag(Prep.out[1].es, Prep.out[3].es)
    /\ LET b == Prep.out[2]
           d == DecBlockedFile(EncBlockedFile(Pair(O[Len(O)]), Pair(O[Len(O)]), b.es, O, O, 4), 4, 4, O, O)
       IN d.s = "ok" /\ SameBag(d.es, Prep.out[1].es)
    /\ SameBag(Prep.out[1].es, [k \in 1..Len(x.es) |-> Entry(Pair(x.p[IntOf(Row(x.es[k])) + 1]), Pair(x.p[IntOf(Col(x.es[k])) + 1]), Val(x.es[k]))])
\* the expanded matrix keeps every entry in its block at its place, and the order of columns
ExpandKeeps == Started => 
    LET c == Prep.out[3].es  e == Prep.out[4].es  n == ExpandSize(x.z)
    IN Len(c) = Len(e) /\ \A k \in 1..Len(c) :
         LET q == IntOf(Row(c[k]))  i == IntOf(Row(e[k]))
         IN i \div n = InWhich(O, q) - 1 /\ i % n = q - O[InWhich(O, q)] /\ Val(c[k]) = Val(e[k])
\* sorting is idempotent and the sorted matrix is the same matrix
SortOnce == Started => LET s == OrderedBy(x.es, "row") IN SameBag(s, x.es) /\ OrderedBy(s, "row") = s /\ SameBag(OrderedBy(s, "col"), s)
            /\ LET b == OrderedByBlock(x.es, O) IN SameBag(b, x.es) /\ OrderedByBlock(b, O) = b
\* block sizes that do not cover the matrix are refused
CoverRefused == Started => LET d == [Disk EXCEPT !["z"] = EncArray(<<Pair(M - 1)>>, 4)]
                    m == IF \E k \in 1..Len(x.es) : Row(x.es[k]) = Pair(M - 1) \/ Col(x.es[k]) = Pair(M - 1) THEN {"bad"} ELSE {"ok"}
                IN Meaning("convert_blocked", <<"r", "c", "v", "z", "o">>, d, <<>>, V).s \in m
ASSUME Floats == \A e \in {0, 1, 872, 873, 874, 896, 897, 1023, 1150, 1151, 2046, 2047}, m \in {0, 15}, y \in {0, 31, 32, 16, 17, 48, 255}, w \in {0, 1} :
            LET b == <<w, 0, 0, y, 255, 255, 16 * (e % 16) + m, e \div 16>>
                f == ToFloat(b)
            IN Len(f) = 4 /\ \A k \in 1..4 : f[k] \in 0..255
=============================================================================
