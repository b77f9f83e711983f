------------------------------ MODULE Sorting -------------------------------
(* The documented orders of the sorting routines, and what a stable sort is. *)
EXTENDS Formats

\* interleaved bits of column (odd positions) and row (even positions)
RECURSIVE BitsOf(_, _, _, _)
BitsOf(r, c, bit, acc) ==
    IF r = 0 /\ c = 0 THEN acc
    ELSE BitsOf(r \div 2, c \div 2, bit * 4, acc + bit * ((r % 2) + 2 * (c % 2)))
\* the key compared as a pair of 16-bit halves, so that it fits TLC's integers
MortonKey(r, c) == <<BitsOf(r \div 256, c \div 256, 1, 0), BitsOf(r % 256, c % 256, 1, 0)>>

\* the sort key of an entry; arg: [w |-> width] or [ro |-> , co |-> ]
KeyOf(by, arg, e) ==
    CASE by \in {"row", "rowm"} -> <<e[1], e[2]>>
      [] by = "col" -> <<e[2], e[1]>>
      [] by = "morton" -> MortonKey(e[1], e[2])
      [] by = "wide" -> <<e[1] \div arg.w, e[2], e[1]>>
      [] by = "block" -> <<BlockOf(arg.ro, e[1]), BlockOf(arg.co, e[2]), e[1], e[2]>>

\* out is in sorted by key; entries with the same key keep their order.  The sort
\* of in by (key, position) is unique, so this determines out completely.
SortedBy(by, arg, in, out) ==
    LET n == Len(in)
        tagged == [i \in 1..n |-> KeyOf(by, arg, in[i]) \o <<i>>]
        s == SortTuples(tagged)
    IN /\ Len(out) = n
       /\ \A i \in 1..n : out[i] = in[s[i][Len(s[i])]]
=============================================================================
