---------------------------- MODULE TracePrepare -----------------------------
(* Accepts recorded interleavings of prepare runs.  Every operation on a file is an event;
   a run may touch only its inputs (reading), its outputs and what it created itself. *)
EXTENDS Tools, Json, IOUtils
VARIABLES l, disk, args, made
tvars == <<l, disk, args, made>>
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
T == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e
Nothing == [x \in {} |-> <<>>]
With(f, k, v) == [n \in DOMAIN f \cup {k} |-> IF n = k THEN v ELSE f[n]]
Without(f, k) == [n \in DOMAIN f \ {k} |-> f[n]]
Mine(x) == x \in DOMAIN made /\ made[x] = T.p
Output(p, x) == MayLeave("prepare", args[p], x)
Input(x) == x \in DOMAIN disk
OneStep == l' = l + 1

TraceInit == l = 1 /\ disk = Nothing /\ args = Nothing /\ made = Nothing
TBegin == Is("Begin") /\ disk' = Nothing /\ args' = Nothing /\ made' = Nothing /\ OneStep
TFile == Is("File") /\ disk' = With(disk, T.n, T.b) /\ UNCHANGED <<args, made>> /\ OneStep
TStart == Is("Start") /\ args' = With(args, T.p, T.a) /\ UNCHANGED <<disk, made>> /\ OneStep
TOp ==
    /\ Is("Op")
    /\ UNCHANGED <<disk, args>>
    /\ CASE T.ok = 0 -> UNCHANGED made
         [] T.op \in {"mkdir", "make"} -> T.was = 0 /\ made' = With(made, T.x, T.p)
         [] T.op \in {"read", "get"} -> (Mine(T.x) \/ Input(T.x) \/ Output(T.p, T.x)) /\ UNCHANGED made
         [] T.op = "write" -> IF Output(T.p, T.x) \/ Mine(T.x) THEN UNCHANGED made
                              ELSE T.was = 0 /\ T.x \notin DOMAIN made /\ made' = With(made, T.x, T.p)
         [] T.op = "put" -> (Output(T.p, T.x) \/ Mine(T.x)) /\ UNCHANGED made
         [] T.op = "remove" -> (Output(T.p, T.x) \/ Mine(T.x)) /\ made' = Without(made, T.x)
         [] OTHER -> UNCHANGED made
    /\ OneStep
TExit ==
    /\ Is("Exit")
    /\ \A x \in DOMAIN made : made[x] # T.p
    /\ T.rc # 2
    /\ LET m == Meaning("prepare", args[T.p], disk, <<>>, <<>>)
       IN (IF T.rc = 0 THEN SucceededOk(m, "prepare", args[T.p], disk, T.touched, <<>>, <<>>, <<>>)
           ELSE FailedOk(m, "prepare", args[T.p], disk, T.touched, <<>>, T.hindered = 1)) = TRUE
    /\ UNCHANGED <<disk, args, made>> /\ OneStep
\* nothing else is there in the end, and the inputs are as they were
TEnd ==
    /\ Is("End")
    /\ T.left = <<>>
    /\ \A k \in 1..Len(T.names) : Input(T.names[k]) \/ \E p \in DOMAIN args : Output(p, T.names[k])
    /\ T.same = 1
    /\ UNCHANGED <<disk, args, made>> /\ OneStep
TraceNext == TBegin \/ TFile \/ TStart \/ TOp \/ TExit \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
