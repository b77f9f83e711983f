------------------------------ MODULE Prepare --------------------------------
(* Several runs of prepare at the same time on one file system.  A run creates storage of
   its own, leaves the permuted row and column indices there, reads them back, writes its
   outputs and removes its storage.  Any step may fail; the run then still removes its
   storage.  Fresh is TRUE if the storage gets a name nobody else uses (mkdtemp); with
   FALSE all runs use one name, as prepare once did, and the properties do not hold. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Runs, Fresh, MayFail
VARIABLES dirs,      \* directory -> files in it: file -> contents (a run, 0 while incomplete)
          at,        \* run -> next step
          mine,      \* run -> its directory, 0 if none
          got,       \* run -> contents it read back
          result     \* run -> "running", "ok", "failed"
vars == <<dirs, at, mine, got, result>>
Steps == <<"mkdir", "rows", "rowsdone", "cols", "colsdone", "getrows", "getcols", "outputs", "rmrows", "rmcols", "rmdir", "end">>
Step(p) == Steps[at[p]]
Cleanup == 9
Empty == [f \in {} |-> 0]
Set(d, f, v) == [g \in DOMAIN d \cup {f} |-> IF g = f THEN v ELSE d[g]]
Unset(d, f) == [g \in DOMAIN d \ {f} |-> d[g]]
HasFile(p, f) == mine[p] \in DOMAIN dirs /\ f \in DOMAIN dirs[mine[p]]

Init == dirs = Empty /\ at = [p \in Runs |-> 1] /\ mine = [p \in Runs |-> 0] /\ got = [p \in Runs |-> <<>>] /\ result = [p \in Runs |-> "running"]
Goto(p, k) == at' = [at EXCEPT ![p] = k]
Adv(p) == Goto(p, at[p] + 1)
Fail(p) == result' = [result EXCEPT ![p] = "failed"] /\ Goto(p, Cleanup)

Mkdir(p) ==
    /\ Step(p) = "mkdir"
    /\ LET d == IF Fresh THEN CHOOSE n \in 1..(Cardinality(Runs) + 1) : n \notin DOMAIN dirs ELSE 1
       IN /\ dirs' = IF d \in DOMAIN dirs THEN dirs ELSE Set(dirs, d, Empty)
          /\ mine' = [mine EXCEPT ![p] = d]
    /\ Adv(p) /\ UNCHANGED <<got, result>>
\* opening truncates; the contents are there once the file is closed
Put(p, open, f, v) ==
    /\ Step(p) = open
    /\ IF mine[p] \in DOMAIN dirs THEN dirs' = [dirs EXCEPT ![mine[p]] = Set(@, f, v)] /\ Adv(p) /\ UNCHANGED result
       ELSE Fail(p) /\ UNCHANGED dirs
    /\ UNCHANGED <<mine, got>>
Get(p, step, f) ==
    /\ Step(p) = step
    /\ IF HasFile(p, f) THEN got' = [got EXCEPT ![p] = Append(@, dirs[mine[p]][f])] /\ Adv(p) /\ UNCHANGED result
       ELSE Fail(p) /\ UNCHANGED got
    /\ UNCHANGED <<dirs, mine>>
Outputs(p) == Step(p) = "outputs" /\ Adv(p) /\ UNCHANGED <<dirs, mine, got, result>>
Rm(p, step, f) ==
    /\ Step(p) = step
    /\ dirs' = IF HasFile(p, f) THEN [dirs EXCEPT ![mine[p]] = Unset(@, f)] ELSE dirs
    /\ Adv(p) /\ UNCHANGED <<mine, got, result>>
Rmdir(p) ==
    /\ Step(p) = "rmdir"
    /\ dirs' = IF mine[p] \in DOMAIN dirs /\ dirs[mine[p]] = Empty THEN Unset(dirs, mine[p]) ELSE dirs
    /\ mine' = [mine EXCEPT ![p] = 0]
    /\ Adv(p) /\ UNCHANGED <<got, result>>
End(p) == Step(p) = "end" /\ result[p] = "running" /\ result' = [result EXCEPT ![p] = "ok"] /\ UNCHANGED <<dirs, at, mine, got>>
\* an input is missing, a disk is full, ...
Error(p) == MayFail /\ at[p] \in 2..8 /\ Fail(p) /\ UNCHANGED <<dirs, mine, got>>
RunStep(p) ==
    \/ Mkdir(p)
    \/ Put(p, "rows", "rows", 0) \/ Put(p, "rowsdone", "rows", p)
    \/ Put(p, "cols", "cols", 0) \/ Put(p, "colsdone", "cols", p)
    \/ Get(p, "getrows", "rows") \/ Get(p, "getcols", "cols")
    \/ Outputs(p) \/ Rm(p, "rmrows", "rows") \/ Rm(p, "rmcols", "cols") \/ Rmdir(p) \/ End(p) \/ Error(p)
Next == \E p \in Runs : RunStep(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Runs : WF_vars(RunStep(p))

Ended(p) == result[p] # "running" /\ Step(p) = "end"
\* each run sees only what it wrote
Isolated == \A p \in Runs : \A k \in 1..Len(got[p]) : got[p][k] = p
\* nothing is left once all have ended, and a run that has ended has left nothing
NoLeftovers == \A d \in DOMAIN dirs : \E p \in Runs : mine[p] = d /\ ~Ended(p)
AllGone == (\A p \in Runs : Ended(p)) => dirs = Empty
\* without errors of its own, a run succeeds whatever the others do
Undisturbed == ~MayFail => \A p \in Runs : result[p] # "failed"
NobodyElses == [][\A d \in DOMAIN dirs : \A p \in Runs :
                    (mine[p] = d /\ ~Ended(p) /\ at'[p] = at[p]) => d \in DOMAIN dirs' /\ dirs'[d] = dirs[d]]_vars
Terminates == <>(\A p \in Runs : Ended(p))
=============================================================================
