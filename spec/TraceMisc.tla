------------------------------ MODULE TraceMisc ------------------------------
(* Accepts what drivers/misc.cpp and the measuring programs record: block sizes and bit
   helpers, comparisons, statistics, timing summaries, program runs. *)
EXTENDS Programs, Json, IOUtils
VARIABLES l, disk
tvars == <<l, disk>>
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
T == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e
Step == l' = l + 1 /\ UNCHANGED disk
Nothing == [x \in {} |-> <<>>]
TraceInit == l = 1 /\ disk = Nothing
TBegin == Is("Begin") /\ disk' = Nothing /\ l' = l + 1
TEnd == Is("End") /\ Step
TFile == Is("File") /\ disk' = [n \in DOMAIN disk \cup {T.n} |-> IF n = T.n THEN T.b ELSE disk[n]] /\ l' = l + 1
TPick == Is("Pick") /\ PickOk(T.m, T.n, T.val, T.w, T.top, T.r) = TRUE /\ Step
TNp2 == Is("Np2") /\ NextPow2Ok(T.v, T.r) = TRUE /\ Step
THbs == Is("Hbs") /\ HighestOk(T.v, T.neg = 1, T.r) = TRUE /\ Step
\* the vectors that are compared stay as they were
TCheck == Is("Check") /\ (T.a2 = T.a /\ T.b2 = T.b /\ CompareOk(T.a, T.b, T.rc, T.wrong, T.worst, T.same)) = TRUE /\ Step
TStat == Is("Stat") /\ StatOk(T.k, T.a, T.r) = TRUE /\ Step
TTimes == Is("Times") /\ ((T.k = "csv" \/ TimesOk(T.t, T.u, 1, T.tm)) /\ RatesOk(T.t, 2 * T.a, T.fl)) = TRUE /\ Step
TProg == Is("Prog") /\ RunOk(T.t, T.a, disk, T.kind, T.tv, T.one, T.rc, T.i, T.w, T.n, T.d) = TRUE /\ Step
TraceNext == TBegin \/ TEnd \/ TFile \/ TPick \/ TNp2 \/ THbs \/ TCheck \/ TStat \/ TTimes \/ TProg
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
