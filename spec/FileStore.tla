------------------------------ MODULE FileStore ------------------------------
(* Files and the operations of the library on them.  disk maps the name of a file to
   its bytes; a name that is missing does not exist.  A file whose writing failed has
   unknown contents. *)
EXTENDS FileFormats
VARIABLE disk            \* below, iw and vw are the widths of an index and of a value in bytes

None == [x \in {} |-> <<>>]
Exists(n) == n \in DOMAIN disk
Known(n) == Exists(n) /\ disk[n].known
Bytes(n) == disk[n].b
File(b) == [known |-> TRUE, b |-> b]
Spoilt == [known |-> FALSE, b |-> <<>>]
Update(d, ns, fs) == [n \in DOMAIN d \cup {ns[k] : k \in 1..Len(ns)} |->
                        IF \E k \in 1..Len(ns) : ns[k] = n THEN fs[CHOOSE k \in 1..Len(ns) : ns[k] = n] ELSE d[n]]

\* what the files ns, having the contents bs, describe when read as kind
Suffix4(nb) == IF Len(nb) < 4 THEN <<>> ELSE SubSeq(nb, Len(nb) - 3, Len(nb))
DotBin == <<46, 98, 105, 110>>
DotMtx == <<46, 109, 116, 120>>
\* a: [nb: name as bytes; ro, co: block boundaries; tv, one: values of the numbers in a Matrix Market file]
Describe(kind, bs, a, iw, vw) ==
    CASE kind = "mm" -> DecMM(bs[1], a.tv, a.one)
      [] kind = "bin" -> DecCoo(bs[1], iw, vw)
      [] kind = "suf" -> IF Suffix4(a.nb) = DotBin THEN DecCoo(bs[1], iw, vw)
                         ELSE IF Suffix4(a.nb) = DotMtx THEN DecMM(bs[1], a.tv, a.one) ELSE Bad
      [] kind = "csr" -> DecCsrFile(bs[1], iw, vw)
      [] kind = "three" -> DecThree(bs[1], bs[2], bs[3], iw, vw)
      [] kind = "arr" -> DecArray(bs[1], iw)
      [] kind = "blk" -> DecBlockedFile(bs[1], iw, vw, a.ro, a.co)
      [] OTHER -> Bad
Reading(kind, ns, a, iw, vw) ==
    IF \E k \in 1..Len(ns) : ~Exists(ns[k]) THEN Bad
    ELSE IF \E k \in 1..Len(ns) : ~Known(ns[k]) THEN Open
    ELSE Describe(kind, [k \in 1..Len(ns) |-> Bytes(ns[k])], a, iw, vw)

FileInit == disk = None
Placed(n, b) == disk' = Update(disk, <<n>>, <<File(b)>>)
Unlinked(n) == disk' = [x \in DOMAIN disk \ {n} |-> disk[x]]

\* Reading never changes a file.  What is returned is what the files describe
ReadOk(kind, ns, a, iw, vw, r, c, es) == Agrees(Reading(kind, ns, a, iw, vw), r, c, es) /\ UNCHANGED disk
ReadArrOk(ns, iw, arr) == LET d == Reading("arr", ns, <<>>, iw, 1) IN (d.s = "open" \/ (d.s = "ok" /\ d.a = arr)) /\ UNCHANGED disk
\* a reader refuses only what is damaged or not well formed
ReadRefused(kind, ns, a, iw, vw) == MayRefuse(Reading(kind, ns, a, iw, vw)) /\ UNCHANGED disk

\* do the contents bs stand for the matrix m = [r, c, es]?
Holds3(kind, bs, m, a, iw, vw) ==
    LET d == Describe(kind, bs, a, iw, vw)
    IN CASE kind = "arr" -> d.s = "ok" /\ d.a = m.a
         [] kind = "three" -> (m.es = <<>> /\ bs = <<<<>>, <<>>, <<>>>>) \/ (d.s = "ok" /\ d.es = m.es)
         [] kind = "blk" -> d.s = "ok" /\ d.r = m.r /\ d.c = m.c /\ SameBag(d.es, m.es)
         [] OTHER -> d.s = "ok" /\ ~d.bag /\ d.r = m.r /\ d.c = m.c /\ d.es = m.es
\* a damaged file is never returned as a matrix
NotDamaged(kind, ns, a, iw, vw) == Reading(kind, ns, a, iw, vw).s # "bad" /\ UNCHANGED disk

\* Success means the complete files are there
WriteOk(kind, ns, bs, m, a, iw, vw) ==
    /\ Holds3(kind, bs, m, a, iw, vw) = TRUE
    /\ disk' = Update(disk, ns, [k \in 1..Len(ns) |-> File(bs[k])])
\* Failure is reported only if something stood in the way
WriteFailed(ns, hindered) == hindered /\ disk' = Update(disk, ns, [k \in 1..Len(ns) |-> Spoilt])
=============================================================================
