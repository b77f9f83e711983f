------------------------------- MODULE TraceIO -------------------------------
(* Accepts the histories recorded by drivers/io.cpp: files appear, are written and
   read by the library, sometimes with a failing disk.  Aspects: "meaning" (what is read
   is what the files describe), "damage" (what is damaged is not returned), "round"
   (what is written can be read back), "faults" (success means complete). *)
EXTENDS FileStore, Json, IOUtils
CONSTANT Aspects
VARIABLES l, iw, vw,
          whole      \* what an unhindered write leaves, for each thing written
tvars == <<disk, l, iw, vw, whole>>
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
T == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e
Step == l' = l + 1 /\ UNCHANGED <<iw, vw>>
On(a) == a \in Aspects

TraceInit == FileInit /\ l = 1 /\ iw = 4 /\ vw = 4 /\ whole = None
TBegin == Is("Begin") /\ disk' = None /\ iw' = T.iw /\ vw' = T.vw /\ l' = l + 1 /\ whole' = None
TEnd == Is("End") /\ UNCHANGED <<disk, whole>> /\ Step
TFile == Is("File") /\ Placed(T.n, T.b) /\ UNCHANGED whole /\ Step
TGone == Is("Gone") /\ Unlinked(T.n) /\ UNCHANGED whole /\ Step
TRead ==
    /\ Is("Read")
    /\ T.same = 1
    /\ IF T.ok = 0 THEN IF On("meaning") \/ On("round") THEN ReadRefused(T.k, T.ns, T.a, iw, vw) ELSE UNCHANGED disk
       ELSE IF On("damage") THEN NotDamaged(T.k, T.ns, T.a, iw, vw)
       ELSE IF T.k = "arr" THEN ReadArrOk(T.ns, iw, T.arr)
       ELSE ReadOk(T.k, T.ns, T.a, iw, vw, T.r, T.c, T.es)
    /\ UNCHANGED whole
    /\ Step
TWrite ==
    /\ Is("Write")
    /\ IF T.rc # 0 THEN WriteFailed(T.ns, T.hindered = 1 \/ ~On("round")) /\ UNCHANGED whole
       ELSE IF ~On("faults") THEN WriteOk(T.k, T.ns, T.bs, T.m, T.a, iw, vw) /\ UNCHANGED whole
       ELSE /\ disk' = Update(disk, T.ns, [k \in 1..Len(T.ns) |-> File(T.bs[k])])
            /\ IF T.hindered = 0 THEN whole' = Update(whole, <<T.key>>, <<T.bs>>)
               ELSE (T.key \in DOMAIN whole => whole[T.key] = T.bs) /\ UNCHANGED whole
    /\ Step
TraceNext == TBegin \/ TEnd \/ TFile \/ TGone \/ TRead \/ TWrite
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
