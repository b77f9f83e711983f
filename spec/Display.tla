------------------------------ MODULE Display -------------------------------
(* What the tool that lists a file prints: only the numbers count, in the order in which
   they are printed. *)
EXTENDS Tools

\* ---- the listing of a file
\* lines that consist of numbers, and the others
NumLine(t) == t # <<>> /\ \A k \in 1..Len(t) : IsNumber(t[k])
\* single precision numbers that six decimals (multiples of 1/64 below 2^17), or seven
\* digits (multiples of 1/4 below 65536), show exactly
Shown4(v, d) ==
    LET ex == (v[4] % 128) * 2 + v[3] \div 128
        m == 8388608 + (v[3] % 128) * 65536 + v[2] * 256 + v[1]
    IN (ex = 0 /\ m = 8388608) \/ (ex \in (127 - d)..142 /\ m % 2^(150 - d - ex) = 0)
Finite4(v) == ~(v[4] % 128 = 127 /\ v[3] >= 128)
ValShown(tv, t, v, d) == Shown4(v, d) => (\E k \in 1..Len(tv) : tv[k][1] = t /\ (tv[k][2] = v \/ (v = <<0, 0, 0, 128>> /\ tv[k][2] = <<0, 0, 0, 0>>)))
PWord(t, p) == IsUInt(t) /\ UInt(t) = p
\* digits that stand alone in lines of text
TextNumbers(ls) == Flat([k \in 1..Len(ls) |-> SelectSeq(ls[k], IsUInt)])
PprintShows(a, D, out, tv) ==
    LET b == D[a[1]]
        mode == IF Len(a) = 2 /\ a[2] \in {"triples", "blocks", "vector"} THEN a[2] ELSE "blocks"
        ls == [k \in 1..Len(FileLines(out)) |-> Toks(FileLines(out)[k])]
        rec == SelectSeq(ls, NumLine)
        rest == SelectSeq(ls, LAMBDA t : ~NumLine(t))
        n == IntOf(Word(b, 8, 4))
        at(k) == Word(b, 12 + 4 * (k - 1), 4)
        val(from, k) == Slice(b, from + 4 * (k - 1), 4)
    IN CASE mode = "vector" -> /\ Len(rec) = Len(b) \div 4
                               /\ \A k \in 1..Len(rec) : Len(rec[k]) = 1 /\ PWord(rec[k][1], Word(b, 4 * (k - 1), 4))
         [] mode = "triples" ->
              (\A k \in 1..n : Finite4(val(12 + 8 * n, k))) =>
              /\ Len(rec) = 3 * n /\ \A k \in 1..Len(rec) : Len(rec[k]) = 1
              /\ \A k \in 1..(2 * n) : PWord(rec[k][1], at(k))
              /\ \A k \in 1..n : ValShown(tv, rec[2 * n + k][1], val(12 + 8 * n, k), 6)
              /\ Len(TextNumbers(rest)) >= 3
              /\ \A k \in 1..3 : UInt(TextNumbers(rest)[k]) = Word(b, 4 * (k - 1), 4)
         [] mode = "blocks" ->
              (\A k \in 1..n : Finite4(Slice(b, 24 + 16 * (k - 1) + 12, 4))) =>
              /\ Len(rec) = n
              /\ \A k \in 1..n : /\ Len(rec[k]) = 4
                                 /\ \A j \in 1..3 : PWord(rec[k][j], Word(b, 24 + 16 * (k - 1) + 4 * (j - 1), 4))
                                 /\ ValShown(tv, rec[k][4], Slice(b, 24 + 16 * (k - 1) + 12, 4), 2)
=============================================================================
