------------------------------ MODULE ParSort ------------------------------
(* The parallel stable merge sort on a team of workers: an array X, a buffer Z of the
   same size, both addressed from 0; tasks for the first half of a sort and for the
   first part of a merge, waits for them.  Ranges are half open.  Cut is the length that
   is sorted, MergeCut the length that is merged without further tasks. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS W, Inputs, Cut, MergeCut, Broken

VARIABLES input, X, Z, fr, tasks, bar
vars == <<input, X, Z, fr, tasks, bar>>
WS == 1..W
Size == Len(input)
Top(k) == fr[k][Len(fr[k])]
Pop(k) == SubSeq(fr[k], 1, Len(fr[k]) - 1)
At(k, what, pc) == fr[k] # <<>> /\ Top(k).what = what /\ Top(k).pc = pc
SetTop(k, g) == fr' = [fr EXCEPT ![k] = Append(Pop(k), g)]
Push(k, g, h) == fr' = [fr EXCEPT ![k] = Append(Append(Pop(k), g), h)]
Pending(t) == Cardinality({i \in 1..Len(tasks) : tasks[i].par = t /\ tasks[i].st # "done"})
RECURSIVE Below(_, _)
Below(t, a) == t = a \/ (t > 0 /\ Below(tasks[t].par, a))
Sort(t, root, lo, hi, inp) == [task |-> t, root |-> root, what |-> "sort", pc |-> "go", lo |-> lo, hi |-> hi, inp |-> inp]
Merge(t, root, z, x0, x1, y0, y1, to) == [task |-> t, root |-> root, what |-> "merge", pc |-> "go", fromz |-> z, x0 |-> x0, x1 |-> x1, y0 |-> y0, y1 |-> y1, to |-> to]
Task(par, f) == [par |-> par, st |-> "ready", f |-> f]

\* elements are <<key, original place>>
At0(s, i) == s[i + 1]
Less(a, b) == a[1] < b[1]
RECURSIVE Insert(_, _)
Insert(s, e) == IF s = <<>> \/ ~Less(e, s[Len(s)]) THEN Append(s, e) ELSE Append(Insert(SubSeq(s, 1, Len(s) - 1), e), s[Len(s)])
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>> ELSE Insert(Sorted(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
RECURSIVE Merged(_, _)
Merged(s, u) == IF s = <<>> THEN u ELSE IF u = <<>> THEN s
                ELSE IF Less(u[1], s[1]) THEN <<u[1]>> \o Merged(s, Tail(u)) ELSE <<s[1]>> \o Merged(Tail(s), u)
Part(s, lo, hi) == [i \in 1..(hi - lo) |-> s[lo + i]]
Over(s, lo, p) == [i \in 1..Len(s) |-> IF i > lo /\ i <= lo + Len(p) THEN p[i - lo] ELSE s[i]]
Lower(s, lo, hi, e) == CHOOSE m \in lo..hi : (\A i \in lo..(m - 1) : Less(At0(s, i), e)) /\ (m < hi => ~Less(At0(s, m), e))
Upper(s, lo, hi, e) == CHOOSE m \in lo..hi : (\A i \in lo..(m - 1) : ~Less(e, At0(s, i))) /\ (m < hi => Less(e, At0(s, m)))
Garbage == <<0, 0>>

Init == /\ input \in Inputs /\ X = input /\ Z = [i \in 1..Len(input) |-> Garbage]
        /\ fr = [k \in WS |-> IF k = 1 THEN <<Sort(-1, TRUE, 0, Len(input), 2)>> ELSE <<>>]
        /\ tasks = <<>> /\ bar = FALSE
Same(v) == UNCHANGED v
Not(inp) == IF inp = 0 THEN 1 ELSE 0

\* a routine that has ended
Return(k) ==
    LET g == Top(k) rest == Pop(k) IN
    IF ~g.root THEN fr' = [fr EXCEPT ![k] = [rest EXCEPT ![Len(rest)].pc = IF @ = "second" THEN (IF Broken = "sortwait" THEN "join" ELSE "wait") ELSE "end"]]
    ELSE IF g.task > 0 THEN SetTop(k, [g EXCEPT !.pc = "fin"])
    ELSE fr' = [fr EXCEPT ![k] = rest]

Start(k, t) ==
    /\ tasks[t].st = "ready"
    /\ IF fr[k] = <<>> THEN TRUE ELSE Top(k).pc = "wait" /\ Pending(Top(k).task) > 0 /\ Below(t, Top(k).task)
    /\ fr' = [fr EXCEPT ![k] = Append(@, [tasks[t].f EXCEPT !.task = t])]
    /\ tasks' = [tasks EXCEPT ![t].st = "run"] /\ Same(<<input, X, Z, bar>>)
Fin(k) == /\ fr[k] # <<>> /\ Top(k).pc = "fin" /\ tasks' = [tasks EXCEPT ![Top(k).task].st = "done"]
          /\ fr' = [fr EXCEPT ![k] = Pop(k)] /\ Same(<<input, X, Z, bar>>)
End(k) == fr[k] # <<>> /\ Top(k).pc = "end" /\ Return(k) /\ Same(<<input, X, Z, tasks, bar>>)
\* a wait is over when all tasks made by the waiting one are done
Pass(k) == /\ fr[k] # <<>> /\ Top(k).pc = "wait" /\ Pending(Top(k).task) = 0
           /\ SetTop(k, [Top(k) EXCEPT !.pc = IF Top(k).what = "sort" THEN "join" ELSE "end"]) /\ Same(<<input, X, Z, tasks, bar>>)

\* ---- sorting
Mid(g) == g.lo + (g.hi - g.lo) \div 2
Halve(k) ==
    /\ At(k, "sort", "go")
    /\ LET g == Top(k) IN
       IF g.hi - g.lo <= Cut THEN SetTop(k, [g EXCEPT !.pc = "base"]) /\ Same(<<tasks>>)
       ELSE /\ tasks' = Append(tasks, Task(g.task, Sort(0, TRUE, g.lo, Mid(g), Not(g.inp))))
            /\ Push(k, [g EXCEPT !.pc = "second"], Sort(g.task, FALSE, Mid(g), g.hi, Not(g.inp)))
    /\ Same(<<input, X, Z, bar>>)
Base(k) ==
    /\ At(k, "sort", "base")
    /\ LET g == Top(k) p == Sorted(Part(X, g.lo, g.hi)) IN
       /\ X' = Over(X, g.lo, p)
       /\ Z' = IF g.inp = 2 THEN Z ELSE IF g.inp = 1 THEN Over(Z, g.lo, [i \in 1..Len(p) |-> Garbage]) ELSE Over(Z, g.lo, p)
    /\ Return(k) /\ Same(<<input, tasks, bar>>)
\* the sorted halves are where the inner sorts left them
Together(k) ==
    /\ At(k, "sort", "join")
    /\ LET g == Top(k) IN Push(k, [g EXCEPT !.pc = "merging"], Merge(g.task, FALSE, g.inp # 0, g.lo, Mid(g), Mid(g), g.hi, g.lo))
    /\ Same(<<input, X, Z, tasks, bar>>)

\* ---- merging, from Z to X if fromz, otherwise from X to Z
From(g) == IF g.fromz THEN Z ELSE X
Long(g) == (g.x1 - g.x0) + (g.y1 - g.y0) > MergeCut
Cuts(g) == IF g.x1 - g.x0 < g.y1 - g.y0
           THEN LET ym == g.y0 + (g.y1 - g.y0) \div 2 IN <<Upper(From(g), g.x0, g.x1, At0(From(g), ym)), ym>>
           ELSE LET xm == g.x0 + (g.x1 - g.x0) \div 2 IN <<xm, (IF Broken = "unstable" THEN Upper(From(g), g.y0, g.y1, At0(From(g), xm)) ELSE Lower(From(g), g.y0, g.y1, At0(From(g), xm)))>>
Divide(k) ==
    /\ At(k, "merge", "go")
    /\ LET g == Top(k) IN
       IF ~Long(g) THEN SetTop(k, [g EXCEPT !.pc = "serial"]) /\ Same(<<tasks>>)
       ELSE LET c == Cuts(g) IN
            /\ tasks' = Append(tasks, Task(g.task, Merge(0, TRUE, g.fromz, g.x0, c[1], g.y0, c[2], g.to)))
            /\ SetTop(k, [g EXCEPT !.x0 = c[1], !.y0 = c[2], !.to = @ + (c[1] - g.x0) + (c[2] - g.y0)])
    /\ Same(<<input, X, Z, bar>>)
Serial(k) ==
    /\ At(k, "merge", "serial")
    /\ LET g == Top(k) p == Merged(Part(From(g), g.x0, g.x1), Part(From(g), g.y0, g.y1)) IN
       /\ X' = IF g.fromz THEN Over(X, g.to, p) ELSE X
       /\ Z' = IF g.fromz THEN Z ELSE Over(Z, g.to, p)
    /\ IF Broken = "mergewait" THEN Return(k) ELSE SetTop(k, [Top(k) EXCEPT !.pc = "wait"])
    /\ Same(<<input, tasks, bar>>)

Done == (\A k \in WS : fr[k] = <<>>) /\ \A i \in 1..Len(tasks) : tasks[i].st = "done"
Finish == Done /\ ~bar /\ bar' = TRUE /\ Same(<<input, X, Z, fr, tasks>>)
Step(k) == Halve(k) \/ Base(k) \/ Together(k) \/ Divide(k) \/ Serial(k) \/ Pass(k) \/ End(k) \/ Fin(k) \/ \E t \in 1..Len(tasks) : Start(k, t)
Next == (\E k \in WS : Step(k)) \/ Finish \/ (bar /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Next)

\* ---- properties
Cells(z, lo, hi) == {<<z, i>> : i \in lo..(hi - 1)}
Writes(k) == IF fr[k] = <<>> THEN {} ELSE LET g == Top(k) IN
             IF g.what = "sort" THEN IF g.pc = "base" THEN Cells(FALSE, g.lo, g.hi) \cup (IF g.inp = 2 THEN {} ELSE Cells(TRUE, g.lo, g.hi)) ELSE {}
             ELSE IF g.pc = "serial" THEN Cells(~g.fromz, g.to, g.to + (g.x1 - g.x0) + (g.y1 - g.y0)) ELSE {}
Reads(k) == IF fr[k] = <<>> THEN {} ELSE LET g == Top(k) IN
            IF g.what = "merge" /\ (g.pc = "serial" \/ (g.pc = "go" /\ Long(g))) THEN Cells(g.fromz, g.x0, g.x1) \cup Cells(g.fromz, g.y0, g.y1) ELSE {}
NoRace == \A k, j \in WS : k # j => Writes(k) \cap (Reads(j) \cup Writes(j)) = {}
Inside == \A k \in WS : \A c \in Reads(k) \cup Writes(k) : c[2] \in 0..(Size - 1)
StableSorted == bar => X = Sorted(input)
Finishes == <>bar
=============================================================================
