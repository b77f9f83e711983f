----------------------------- MODULE TraceTools ------------------------------
(* Accepts recorded runs of the command-line tools.  disk: name -> bytes of the files in
   the directory they work in.  Aspects: "contents" (everything Tools promises),
   "shown" (pprint lists the
   file), "damage" (unusable input makes them fail), "faults" (success means complete). *)
EXTENDS Display, Json, IOUtils
CONSTANT Aspects
VARIABLES l, disk, whole
tvars == <<l, disk, whole>>
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
T == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e
On(a) == a \in Aspects
Nothing == [x \in {} |-> <<>>]
\* disk after files (a sequence of <<name, bytes>>) were written
Over(d, fs) == [n \in DOMAIN d \cup {fs[k][1] : k \in 1..Len(fs)} |->
                  IF \E k \in 1..Len(fs) : fs[k][1] = n THEN fs[CHOOSE k \in 1..Len(fs) : fs[k][1] = n][2] ELSE d[n]]
TraceInit == l = 1 /\ disk = Nothing /\ whole = Nothing
TBegin == Is("Begin") /\ disk' = Nothing /\ whole' = Nothing /\ l' = l + 1
TEnd == Is("End") /\ UNCHANGED <<disk, whole>> /\ l' = l + 1
TFile == Is("File") /\ disk' = Over(disk, <<<<T.n, T.b>>>>) /\ UNCHANGED whole /\ l' = l + 1
TGone == Is("Gone") /\ disk' = [n \in DOMAIN disk \ {T.n} |-> disk[n]] /\ UNCHANGED whole /\ l' = l + 1
Run(m) ==
    /\ T.rc # 2
    /\ On("contents") => T.left = <<>>
    /\ CASE On("contents") -> IF T.rc = 0 THEN SucceededOk(m, T.t, T.a, disk, T.touched, T.gone, T.tv, T.one) ELSE FailedOk(m, T.t, T.a, disk, T.touched, T.gone, T.hindered = 1)
         [] On("shown") -> (T.rc = 0 /\ m.s = "ok" /\ T.t = "pprint") => PprintShows(T.a, disk, T.out, T.tv)
         [] On("damage") -> T.rc = 0 => m.s # "bad"
         [] OTHER -> (T.rc = 0 /\ T.hindered = 1) => /\ T.key \in DOMAIN whole
                                                     /\ Over(disk, T.touched) = whole[T.key]
TRun ==
    /\ Is("Run")
    /\ Run(IF On("faults") THEN ToolOpen ELSE Meaning(T.t, T.a, disk, T.tv, T.one)) = TRUE
    /\ whole' = IF On("faults") /\ T.hindered = 0 /\ T.rc = 0 THEN [n \in DOMAIN whole \cup {T.key} |-> IF n = T.key THEN Over(disk, T.touched) ELSE whole[n]] ELSE whole
    /\ disk' = Over(disk, T.touched)
    /\ l' = l + 1
TraceNext == TBegin \/ TEnd \/ TFile \/ TGone \/ TRun
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
