------------------------------- MODULE KVTrace -------------------------------
(***************************************************************************)
(* Validates recorded executions of the real library against KV: every     *)
(* record must be a KV step whose logged result and logged observations    *)
(* are the ones the specification computes.  A trace file holds many       *)
(* executions, each starting with a "reset" record.                        *)
(***************************************************************************)
EXTENDS KV, KeyTab24, Json
CONSTANT TraceFile
VARIABLE l
Trace == ndJsonDeserialize(TraceFile)
Ev == Trace[l]
Has(r, f) == f \in DOMAIN r

SKIP == 0 - 99
\* element j of a flattened kind-by-key table
Kd(j) == ((j - 1) \div NK) + 1
Sx(j) == ((j - 1) % NK) + 1

ObsOK(o, mm) ==
    /\ ~Has(o, "dead") /\ ~Has(o, "lost")
    /\ Has(o, "f") => \A s \in Keys : o.f[s] = FindQ(mm, 1, s)
    /\ Has(o, "fb") => o.fb = <<>>
    /\ Has(o, "c") => o.c = <<CountQ(mm)>>
    /\ Has(o, "i") => o.i = IterQ(mm)
    /\ Has(o, "l") => \A j \in 1..4 * NK : o.l[j] = SKIP \/ o.l[j] = LpmQ(mm, Kd(j), Sx(j))
    /\ Has(o, "b") => \A j \in 1..4 * NK : o.b[j] = SKIP \/ o.b[j] = LbQ(mm, Kd(j), Sx(j))
    /\ Has(o, "x") => \A j \in 1..Len(o.x) : o.x[j][3] = PIterQ(mm, o.x[j][1], o.x[j][2])
\* (= TRUE: one test for TLC, not a choice between disjuncts)
AllObsOK(mm) == (\A j \in 1..Len(Ev.o) : ObsOK(Ev.o[j], mm)) = TRUE

TInit == Init /\ l = 1
IsEv(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1

TReset  == IsEv("reset") /\ m' = Empty /\ n' = 0
TAdd    == IsEv("a") /\ Add(Ev.k, Ev.ow = 1) /\ Ev.v = n' /\ Ev.r = AddResult(m, Ev.k, Ev.ow = 1) /\ AllObsOK(m')
TDelete == IsEv("r") /\ Delete(Ev.k) /\ Ev.r = RemResult(m, Ev.k) /\ AllObsOK(m')
TClear  == IsEv("A") /\ RemoveAll /\ Ev.r = OK /\ AllObsOK(m')
\* neutral operations; a rejected call must report an error, the others succeed
TNeutral == /\ IsEv("n") /\ Neutral
            /\ IF Ev.what = "bad" THEN Ev.r # OK ELSE Ev.r = OK
            /\ Has(Ev, "pend") => Ev.pend = <<0, 0>>
            /\ AllObsOK(m')
TFiles  == IsEv("files") /\ Ev.c = 0 /\ UNCHANGED <<m, n>>

TNext == TReset \/ TAdd \/ TDelete \/ TClear \/ TNeutral \/ TFiles
TSpec == TInit /\ [][TNext]_<<m, n, l>>
Accepted == PrintT(<<"@D", TLCGet("stats").diameter - 1, Len(Trace)>>)
==============================================================================
