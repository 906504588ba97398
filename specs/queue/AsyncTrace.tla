----------------------------- MODULE AsyncTrace -----------------------------
(***************************************************************************)
(* Validation of what submitters, readers and a final inspection saw.      *)
(*  c    a call; out = 1 it was acknowledged, 0 it was refused, 2 nobody   *)
(*       knows since the submitter died                                    *)
(*  g    a lookup by a submitter: the value of an instant                  *)
(*  end  the contents after the writer has drained                         *)
(* An update can take effect as soon as it has been called, so that it is  *)
(* put into the FIFO by the call.  Effects only matter when somebody looks,*)
(* so the writer moves only in front of those records.                     *)
(***************************************************************************)
EXTENDS AsyncKV, Json, TLC, TLCExt
CONSTANTS TraceFile
VARIABLES l
tvars == <<kv, q, bal, l>>
Log == ndJsonDeserialize(TraceFile)
Ev == Log[l]
IsEv(t) == l <= Len(Log) /\ Ev.e = t
Step == l' = l + 1
TInit == AInit /\ l = 1
TReset == IsEv("reset") /\ kv' = [k \in AKeys |-> 0] /\ q' = [p \in Prods |-> <<>>] /\ bal' = 1 /\ Step
TNew == IsEv("new") /\ kv' = [k \in AKeys |-> Ev.f[k]] /\ UNCHANGED <<q, bal>> /\ Step
TCall == /\ IsEv("c") /\ Step
         /\ \/ Ev.out # 0 /\ Submit(Ev.p, Upd(Ev.op, Ev.k, Ev.id, Ev.ow))
            \/ Ev.out # 1 /\ UNCHANGED avars
TMove == (IsEv("g") \/ IsEv("end")) /\ (\E p \in Prods : Apply(p)) /\ UNCHANGED l
TGet == IsEv("g") /\ (Ev.v = kv[Ev.k]) /\ UNCHANGED avars /\ Step
TNote == (IsEv("die") \/ IsEv("wdie")) /\ UNCHANGED avars /\ Step
Count(m) == Cardinality({k \in AKeys : m[k] # 0})
TEnd == /\ IsEv("end") /\ Drained /\ UNCHANGED avars /\ Step
        /\ (\A k \in AKeys : Ev.f[k] = kv[k]) = TRUE
        /\ (Ev.n = Count(kv) /\ (Ev.b = -1 \/ Ev.b = bal) /\ Ev.lost = 0) = TRUE
        /\ (Ev.d = 1 \/ Ev.c = Count(kv)) = TRUE   \* no claim on the counter after the writer was killed
TNext == TReset \/ TNew \/ TCall \/ TMove \/ TGet \/ TNote \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
\* the furthest record reached (the writer's moves are not records)
Mark == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
MarkInit == TInit /\ TLCSet(1, 1)
VSpec == MarkInit /\ [][TNext]_tvars
Accepted == PrintT(<<"@D", TLCGet(1) - 1, Len(Log)>>)
=============================================================================
