----------------------------- MODULE SpmvTasks -----------------------------
(* The parallel product of a blocked matrix with unbalanced block-rows, on a team of
   workers: block-rows are handed out, a block-row of several chunks is halved again and
   again, the first half as a task on the same piece of y, the second half into a
   temporary vector that is added when the task is done.  A piece of a vector is one
   cell; chunk j of a block-row adds 2^j to it.
   With Coarse a worker runs on until its next scheduling point, so that behaviours are
   the schedules drivers/omp.cpp can be told to follow; moves then records them. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS W, Chunks, Broken, Coarse

VARIABLES st,       \* worker -> "new", "loop", "bar"
          fr,       \* worker -> frames, innermost last
          next,     \* next block-row
          tasks,    \* sequence of [par, f, l, tgt, st]
          mem, dead,\* cells; released ones
          run,      \* Coarse: the worker that has to go on, 0 if there is none
          moves
vars == <<st, fr, next, tasks, mem, dead, run, moves>>
N == Len(Chunks)
WS == 1..W
Top(k) == fr[k][Len(fr[k])]
Pop(k) == SubSeq(fr[k], 1, Len(fr[k]) - 1)
At(k, pc) == fr[k] # <<>> /\ Top(k).pc = pc
Frame(t, root, f, l, c) == [task |-> t, root |-> root, f |-> f, l |-> l, tgt |-> c, pc |-> "go", reg |-> 0, tmp |-> 0]
SetTop(k, g) == fr' = [fr EXCEPT ![k] = Append(Pop(k), g)]
Pc(k, p) == SetTop(k, [Top(k) EXCEPT !.pc = p])
Pending(t) == Cardinality({i \in 1..Len(tasks) : tasks[i].par = t /\ tasks[i].st # "done"})
RECURSIVE Below(_, _)
Below(t, a) == t = a \/ (t > 0 /\ Below(tasks[t].par, a))

Init == /\ st = [k \in WS |-> "new"] /\ fr = [k \in WS |-> <<>>] /\ next = 1 /\ tasks = <<>>
        /\ mem = [i \in 1..N |-> 0] /\ dead = {} /\ run = 0 /\ moves = <<>>

\* a step of worker k; point: it ends at a scheduling point; t: the task it took
Move(k, point, t) ==
    /\ run \in {0, k}
    /\ run' = IF Coarse /\ ~point THEN k ELSE 0
    /\ moves' = IF Coarse /\ run = 0 THEN Append(moves, <<k, t>>) ELSE moves
Go(k) == Move(k, FALSE, -1)
Point(k) == Move(k, TRUE, -1)
Same(v) == UNCHANGED v

\* a finished frame: back to the caller, to the end of the task, or to the loop
Return(k) ==
    LET g == Top(k) rest == Pop(k) IN
    IF g.root THEN IF g.task < 0 THEN fr' = [fr EXCEPT ![k] = rest] /\ Point(k)
                   ELSE SetTop(k, [g EXCEPT !.pc = "fin"]) /\ Go(k)
    ELSE fr' = [fr EXCEPT ![k] = [rest EXCEPT ![Len(rest)].pc = IF Broken = "nowait" THEN "add" ELSE "arrive"]] /\ Go(k)

Begin(k) == st[k] = "new" /\ st' = [st EXCEPT ![k] = "loop"] /\ Point(k) /\ Same(<<fr, next, tasks, mem, dead>>)
Take(k) == /\ st[k] = "loop" /\ fr[k] = <<>> /\ next <= N
           /\ fr' = [fr EXCEPT ![k] = <<Frame(0 - k, TRUE, 0, Chunks[next], next)>>]
           /\ next' = next + 1 /\ Go(k) /\ Same(<<st, tasks, mem, dead>>)
Last(k) == st[k] = "loop" /\ fr[k] = <<>> /\ next > N /\ st' = [st EXCEPT ![k] = "bar"] /\ Point(k) /\ Same(<<fr, next, tasks, mem, dead>>)
Start(k, t) ==
    /\ tasks[t].st = "ready"
    /\ IF fr[k] = <<>> THEN st[k] = "bar" ELSE Top(k).pc = "wait" /\ Pending(Top(k).task) > 0 /\ Below(t, Top(k).task)
    /\ fr' = [fr EXCEPT ![k] = Append(@, Frame(t, TRUE, tasks[t].f, tasks[t].l, tasks[t].tgt))]
    /\ tasks' = [tasks EXCEPT ![t].st = "run"]
    /\ Move(k, TRUE, t) /\ Same(<<st, next, mem, dead>>)
Enter(k) == At(k, "go") /\ Pc(k, IF Top(k).l - Top(k).f = 1 THEN "load" ELSE "spawn") /\ Go(k) /\ Same(<<st, next, tasks, mem, dead>>)
Mid(g) == (g.f + g.l) \div 2
Spawn(k) == /\ At(k, "spawn")
            /\ tasks' = Append(tasks, [par |-> Top(k).task, f |-> Top(k).f, l |-> Mid(Top(k)), tgt |-> Top(k).tgt, st |-> "ready"])
            /\ Pc(k, "half") /\ Point(k) /\ Same(<<st, next, mem, dead>>)
Half(k) ==
    /\ At(k, "half")
    /\ LET g == Top(k) c == IF Broken = "notemp" THEN g.tgt ELSE Len(mem) + 1 IN
       /\ mem' = IF Broken = "notemp" THEN mem ELSE Append(mem, 0)
       /\ fr' = [fr EXCEPT ![k] = Append(Append(Pop(k), [g EXCEPT !.pc = "called", !.tmp = c]), Frame(g.task, FALSE, Mid(g), g.l, c))]
    /\ Go(k) /\ Same(<<st, next, tasks, dead>>)
Load(k) == At(k, "load") /\ SetTop(k, [Top(k) EXCEPT !.pc = "store", !.reg = mem[Top(k).tgt]]) /\ Go(k) /\ Same(<<st, next, tasks, mem, dead>>)
Store(k) == At(k, "store") /\ mem' = [mem EXCEPT ![Top(k).tgt] = Top(k).reg + 2^Top(k).f] /\ Return(k) /\ Same(<<st, next, tasks, dead>>)
Arrive(k) == At(k, "arrive") /\ Pc(k, "wait") /\ Point(k) /\ Same(<<st, next, tasks, mem, dead>>)
Pass(k) == At(k, "wait") /\ Pending(Top(k).task) = 0 /\ Pc(k, IF Broken = "notemp" THEN "end" ELSE "add") /\ Go(k) /\ Same(<<st, next, tasks, mem, dead>>)
End(k) == At(k, "end") /\ Return(k) /\ Same(<<st, next, tasks, mem, dead>>)
Add(k) == At(k, "add") /\ SetTop(k, [Top(k) EXCEPT !.pc = "put", !.reg = mem[Top(k).tgt] + mem[Top(k).tmp]]) /\ Go(k) /\ Same(<<st, next, tasks, mem, dead>>)
PutBack(k) == At(k, "put") /\ mem' = [mem EXCEPT ![Top(k).tgt] = Top(k).reg] /\ Pc(k, "free") /\ Go(k) /\ Same(<<st, next, tasks, dead>>)
Free(k) == At(k, "free") /\ dead' = dead \cup {Top(k).tmp} /\ Return(k) /\ Same(<<st, next, tasks, mem>>)
Fin(k) == At(k, "fin") /\ tasks' = [tasks EXCEPT ![Top(k).task].st = "done"] /\ fr' = [fr EXCEPT ![k] = Pop(k)] /\ Point(k) /\ Same(<<st, next, mem, dead>>)

Step(k) == \/ Begin(k) \/ Take(k) \/ Last(k) \/ Enter(k) \/ Spawn(k) \/ Half(k) \/ Load(k) \/ Store(k) \/ Arrive(k)
           \/ Pass(k) \/ End(k) \/ Add(k) \/ PutBack(k) \/ Free(k) \/ Fin(k) \/ \E t \in 1..Len(tasks) : Start(k, t)
Done == (\A k \in WS : st[k] = "bar" /\ fr[k] = <<>>) /\ \A i \in 1..Len(tasks) : tasks[i].st = "done"
Next == (\E k \in WS : Step(k)) \/ (~Coarse /\ Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(\E k \in WS : Step(k))

\* ---- properties
\* what the next step of a worker reads and writes
Reads(k) == IF fr[k] = <<>> THEN {} ELSE LET g == Top(k) IN
            CASE g.pc = "load" -> {g.tgt} [] g.pc = "add" -> {g.tgt, g.tmp} [] OTHER -> {}
Writes(k) == IF fr[k] = <<>> THEN {} ELSE LET g == Top(k) IN
             CASE g.pc \in {"store", "put"} -> {g.tgt} [] g.pc = "free" -> {g.tmp} [] OTHER -> {}
NoRace == \A k, j \in WS : k # j => Writes(k) \cap (Reads(j) \cup Writes(j)) = {}
NoDeadUse == \A k \in WS : (Reads(k) \cup Writes(k)) \cap dead = {}
Exact == Done => \A i \in 1..N : mem[i] = 2^Chunks[i] - 1
NoLeak == Done => dead = (N + 1)..Len(mem)
Finishes == <>Done
TypeOK == next \in 1..(N + 1) /\ run \in 0..W
=============================================================================
