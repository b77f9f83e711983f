---------------------------- MODULE MC_BlockSize -----------------------------
(* The way the block size is chosen, step by step on the logarithms of the dimensions,
   and that what comes out keeps the promise.  Up(m) = p, Up(n) = q; the product of the
   dimensions lies in (2^(p+q-2), 2^(p+q)]. *)
EXTENDS BlockSize
CONSTANTS MaxLog, Workers, Sizes, IndexBits
VARIABLES p, q, w, val, low, prod, pc     \* low = <<bits of a block-row, of a block-column>>
vars == <<p, q, w, val, low, prod, pc>>
\* prod: the product of the dimensions is 2^prod.e (exact) or strictly between that and 2^(prod.e + 1)
Init == p \in 0..MaxLog /\ q \in 0..MaxLog /\ w = 1 /\ val = 4 /\ low = <<0, 0>> /\ pc = "pick" /\ prod = [e |-> 0, exact |-> TRUE]
Pick == /\ pc = "pick"
        /\ w' \in Workers /\ val' \in Sizes
        /\ prod' \in {x \in [e : {p + q - 2, p + q - 1, p + q}, exact : BOOLEAN] : x.e >= 0 /\ (x.e = p + q => x.exact) /\ (x.e = p + q - 2 => ~x.exact)}
        /\ pc' = "start" /\ UNCHANGED <<p, q, low>>
Small == pc = "start" /\ ~IsCut(p, q, w) /\ low' = (IF p < q THEN <<p, p>> ELSE <<q, q>>) /\ pc' = "done" /\ UNCHANGED <<p, q, w, val, prod>>
Halve == pc = "start" /\ IsCut(p, q, w) /\ low' = <<p - 1, q - 1>> /\ pc' = "workers" /\ UNCHANGED <<p, q, w, val, prod>>
Step(at, next, cond, l) == pc = at /\ (IF cond THEN low' = l /\ pc' = pc ELSE pc' = next /\ UNCHANGED low) /\ UNCHANGED <<p, q, w, val, prod>>
ForWorkers == Step("workers", "ycache", ~RowsOk(low[1], p, w), <<low[1] - 1, low[2]>>)
ForY == Step("ycache", "xcache", ~CacheOk(low[1], val), <<low[1] - 1, low[2]>>)
ForX == Step("xcache", "area", ~CacheOk(low[2], val), <<low[1], low[2] - 1>>)
ForArea == Step("area", "square", low[1] + low[2] > IndexBits, IF low[1] > low[2] THEN <<low[1] - 1, low[2]>> ELSE <<low[1], low[2] - 1>>)
Square == Step("square", "root", low[1] # low[2], IF low[1] > low[2] THEN <<low[2], low[2]>> ELSE <<low[1], low[1]>>)
RootUp == ((IF prod.exact THEN prod.e ELSE prod.e + 1) + 3) \div 4 + 2        \* ceiling of log2 of the fourth root, plus 2
Root == Step("root", "done", low[1] > RootUp, <<RootUp, RootUp>>)
Next == Pick \/ Small \/ Halve \/ ForWorkers \/ ForY \/ ForX \/ ForArea \/ Square \/ Root
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Deep(b) == b <= 3 \/ prod.e > 4 * (b - 3) \/ (prod.e = 4 * (b - 3) /\ ~prod.exact)
Positive == low[1] >= 0 /\ low[2] >= 0
Kept == pc = "done" => low[1] = low[2] /\ SizeOk(low[1], p, q, val, w, IndexBits, Deep)
Ends == <>(pc = "done")
\* the arithmetic on bytes agrees with TLC's on small numbers
Val(b) == b[1] + 256 * b[2] + 65536 * (IF Len(b) > 2 THEN b[3] ELSE 0) + 16777216 * (IF Len(b) > 3 THEN b[4] ELSE 0)
Bytes(v) == <<v % 256, v \div 256>>
Few == {0, 1, 2, 3, 4, 5, 127, 128, 129, 255, 256, 257, 511, 512, 4095, 4096, 32767, 46340}
ASSUME \A a \in Few, b \in Few : Val(Times(Bytes(a), Bytes(b))) = a * b
ASSUME \A a \in Few \ {0} : /\ 2^HighBit(Bytes(a)) <= a /\ a < 2^(HighBit(Bytes(a)) + 1)
                            /\ a <= 2^Up(Bytes(a)) /\ (a > 1 => 2^(Up(Bytes(a)) - 1) < a)
                            /\ \A k \in 0..16 : MoreThanPow2(Bytes(a), k) <=> a > 2^k
=============================================================================
