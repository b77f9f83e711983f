------------------------------ MODULE BlockSize ------------------------------
(* What the automatically chosen block size promises, on numbers of up to 64 bits.
   A number is the sequence of its bytes, least significant first. *)
EXTENDS Integers, Sequences, FiniteSets
Slack == 8                 \* block-rows per worker (SLACKNESS)
CacheLog == 18             \* log2 of the cache size in bytes (L2SIZE)

\* ---- numbers as bytes
RECURSIVE Log2(_)
Log2(v) == IF v <= 1 THEN 0 ELSE 1 + Log2(v \div 2)
Top(b) == CHOOSE k \in 0..Len(b) : (k = 0 \/ b[k] # 0) /\ \A j \in (k + 1)..Len(b) : b[j] = 0
IsZero(b) == Top(b) = 0
HighBit(b) == IF IsZero(b) THEN 0 ELSE 8 * (Top(b) - 1) + Log2(b[Top(b)])      \* floor of log2
IsPow2(b) == ~IsZero(b) /\ b[Top(b)] = 2^Log2(b[Top(b)]) /\ \A j \in 1..(Top(b) - 1) : b[j] = 0
Up(b) == IF IsPow2(b) THEN HighBit(b) ELSE HighBit(b) + 1                        \* ceiling of log2
Pow2(k, n) == [j \in 1..n |-> IF j - 1 = k \div 8 THEN 2^(k % 8) ELSE 0]
RECURSIVE Carry(_, _, _)
Carry(s, k, c) == IF k > Len(s) THEN (IF c = 0 THEN <<>> ELSE <<c % 256>> \o Carry(s, k, c \div 256))
                  ELSE <<(s[k] + c) % 256>> \o Carry(s, k + 1, (s[k] + c) \div 256)
RECURSIVE Conv(_, _, _, _)
Conv(a, b, k, i) == IF i > Len(a) THEN 0
                    ELSE (IF k - i + 1 \in 1..Len(b) THEN a[i] * b[k - i + 1] ELSE 0) + Conv(a, b, k, i + 1)
Times(a, b) == Carry([k \in 1..(Len(a) + Len(b) - 1) |-> Conv(a, b, k, 1)], 1, 0)
MoreThanPow2(b, k) == HighBit(b) > k \/ (HighBit(b) = k /\ ~IsZero(b) /\ ~IsPow2(b))     \* b > 2^k

\* ---- the block size, as a number of bits, for dimensions whose ceilings of log2 are
\* p and q; deep(b) says whether b bits are at most about four times the fourth root
\* large enough to be cut into blocks
BigEnough(e, w) == IF e >= 31 THEN TRUE ELSE 2^e > Slack * w
IsCut(p, q, w) == IF w > 1 THEN BigEnough(p, w) /\ BigEnough(q, w) ELSE p >= 2 /\ q >= 2
Usable(b, p, q) == b <= p /\ b <= q
CacheOk(b, val) == IF b <= CacheLog THEN val <= 2^(CacheLog - b) ELSE FALSE
RowsOk(b, p, w) == IF w > 1 /\ p - b < 31 THEN 2^(p - b) >= Slack * w ELSE TRUE
\* the cells of a block can be counted in the index type, whose largest power of two is 2^top
AreaOk(b, top) == 2 * b <= top
SizeOk(b, p, q, val, w, top, deep(_)) ==
    /\ Usable(b, p, q)
    /\ IsCut(p, q, w) => CacheOk(b, val) /\ RowsOk(b, p, w) /\ AreaOk(b, top) /\ deep(b)

\* what a call returned: m, n, r are numbers as bytes
PickOk(m, n, val, w, top, r) ==
    LET prod == Times(m, n)
    IN /\ IsPow2(r)
       /\ SizeOk(HighBit(r), Up(m), Up(n), val, w, top, LAMBDA b : b <= 3 \/ MoreThanPow2(prod, 4 * (b - 3)))

\* the helpers; v has 8 or 4 bytes
NextPow2Ok(n, r) == r = Pow2(Up(n), 8)
HighestOk(v, neg, r) == IF neg THEN r = -1 ELSE IsZero(v) \/ r = HighBit(v)
=============================================================================
