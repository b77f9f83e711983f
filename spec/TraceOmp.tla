------------------------------ MODULE TraceOmp ------------------------------
(* Accepts the recordings of drivers/omp.cpp: a team of workers with loops, tasks,
   waits, barriers and locks.  Two accesses that clash have to be ordered, nothing may
   be used after its release, and the recorded schedule has to be one of OpenMP's. *)
EXTENDS HB, TLC, Json, IOUtils

VARIABLES l, in,    \* position; inside of a parallel region
          clk,      \* worker -> clock
          acc,      \* object -> sequence of [k, s, lo, hi, kind]
          task,     \* task -> [par, st, clk]      par < 0: the implicit task of that worker
          stack,    \* worker -> tasks it is in, innermost last
          lock      \* lock -> clock of its last release
vars == <<l, in, clk, acc, task, stack, lock>>
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
T == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e
Step == l' = l + 1
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Cur(k) == IF stack[k] = <<>> THEN 0 - k ELSE stack[k][Len(stack[k])]

Init == l = 1 /\ in = FALSE /\ clk = <<>> /\ acc = <<>> /\ task = <<>> /\ stack = <<>> /\ lock = <<>>
Keep(v) == UNCHANGED v

TBegin == Is("Begin") /\ in' = FALSE /\ Step /\ Keep(<<clk, acc, task, stack, lock>>)
TFork == /\ Is("OmpFork") /\ ~in /\ in' = TRUE
         /\ clk' = First(T.w) /\ acc' = <<>> /\ task' = <<>> /\ stack' = [k \in 1..T.w |-> <<>>] /\ lock' = <<>> /\ Step
TJoin == /\ Is("OmpJoin") /\ in /\ in' = FALSE
         /\ \A t \in DOMAIN task : task[t].st = "done"
         /\ \A k \in DOMAIN stack : stack[k] = <<>>
         /\ Step /\ Keep(<<clk, acc, task, stack, lock>>)

TChunk == Is("OmpChunk") /\ in /\ stack[T.k] = <<>> /\ Step /\ Keep(<<in, clk, acc, task, stack, lock>>)

\* one access against what was recorded before it
Safe(k, old, a) ==
    \A i \in 1..Len(old) :
        LET o == old[i] IN
        /\ o.kind = 4 => ~Overlap(o.lo, o.hi, a[2], a[3])
        /\ (o.k # k /\ Overlap(o.lo, o.hi, a[2], a[3]) /\ Clash(o.kind, a[4])) => Before(clk, o.k, o.s, k)
Rec(k, a) == [k |-> k, s |-> clk[k][k], lo |-> a[2], hi |-> a[3], kind |-> a[4]]
TAcc == /\ Is("OmpAcc") /\ in
        /\ (\A i \in 1..Len(T.a) : T.a[i][1] \in DOMAIN acc => Safe(T.k, acc[T.a[i][1]], T.a[i])) = TRUE
        /\ LET objs == {T.a[i][1] : i \in 1..Len(T.a)}
               new(x) == LET mine == SelectSeq(T.a, LAMBDA a : a[1] = x) IN [i \in 1..Len(mine) |-> Rec(T.k, mine[i])]
           IN acc' = [x \in DOMAIN acc \cup objs |-> (IF x \in DOMAIN acc THEN acc[x] ELSE <<>>) \o (IF x \in objs THEN new(x) ELSE <<>>)]
        /\ Step /\ Keep(<<in, clk, task, stack, lock>>)

TSpawn == /\ Is("OmpSpawn") /\ in /\ T.t \notin DOMAIN task
          /\ task' = Put(task, T.t, [par |-> Cur(T.k), st |-> "ready", clk |-> clk[T.k]])
          /\ clk' = Tick(clk, T.k) /\ Step /\ Keep(<<in, acc, stack, lock>>)
TStart == /\ Is("OmpStart") /\ in /\ T.t \in DOMAIN task /\ task[T.t].st = "ready"
          /\ task' = [task EXCEPT ![T.t].st = "run"] /\ stack' = [stack EXCEPT ![T.k] = Append(@, T.t)]
          /\ clk' = Acquire(clk, T.k, task[T.t].clk) /\ Step /\ Keep(<<in, acc, lock>>)
Leave(st) == /\ Cur(T.k) = T.t
             /\ task' = [task EXCEPT ![T.t].st = st, ![T.t].clk = clk[T.k]]
             /\ stack' = [stack EXCEPT ![T.k] = SubSeq(@, 1, Len(@) - 1)]
             /\ clk' = Tick(clk, T.k) /\ Step /\ Keep(<<in, acc, lock>>)
TFinish == Is("OmpFinish") /\ in /\ Leave("done")
TPause == Is("OmpPause") /\ in /\ Leave("ready")
\* a wait is over when every child of the waiting task is done
TWaited == /\ Is("OmpWaited") /\ in
           /\ LET kids == {t \in DOMAIN task : task[t].par = Cur(T.k)}
              IN /\ \A t \in kids : task[t].st = "done"
                 /\ clk' = [clk EXCEPT ![T.k] = JoinAll({task[t].clk : t \in kids}, @)]
           /\ Step /\ Keep(<<in, acc, task, stack, lock>>)
TJoined == /\ Is("OmpJoined") /\ in /\ task[T.t].st = "done" /\ clk' = Acquire(clk, T.k, task[T.t].clk)
           /\ Step /\ Keep(<<in, acc, task, stack, lock>>)
TBarrier == /\ Is("OmpBarrier") /\ in
            /\ \A t \in DOMAIN task : task[t].st = "done"
            /\ clk' = Meet(clk) /\ Step /\ Keep(<<in, acc, task, stack, lock>>)
Known == IF T.l \in DOMAIN lock THEN lock[T.l] ELSE Zero(Len(clk))
TLock == Is("OmpLock") /\ in /\ clk' = Acquire(clk, T.k, Known) /\ Step /\ Keep(<<in, acc, task, stack, lock>>)
TUnlock == Is("OmpUnlock") /\ in /\ lock' = Put(lock, T.l, clk[T.k]) /\ clk' = Tick(clk, T.k) /\ Step /\ Keep(<<in, acc, task, stack>>)
TSync == /\ Is("OmpSync") /\ in
         /\ LET c == Acquire(clk, T.k, Known) IN lock' = Put(lock, T.l, c[T.k]) /\ clk' = Tick(c, T.k)
         /\ Step /\ Keep(<<in, acc, task, stack>>)

Next == \/ TBegin \/ TFork \/ TJoin \/ TChunk \/ TAcc \/ TSpawn \/ TStart \/ TFinish \/ TPause \/ TWaited \/ TJoined
        \/ TBarrier \/ TLock \/ TUnlock \/ TSync
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
