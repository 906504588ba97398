---------------------------- MODULE ShmQueueGen ----------------------------
(***************************************************************************)
(* Step-by-step schedules of ShmQueue drawn by TLC (-simulate): who moves, *)
(* 50+p for the death of p, 100 for a writer that loses patience.          *)
(***************************************************************************)
EXTENDS ShmQueue, Json
CONSTANTS Depth
VARIABLES hist
gvars == <<qi, wi, st, d1, d2, pc, tk, sub, acked, applied, cpc, deaths, abands, restarts, who, hist>>
H(x) == hist' = Append(hist, x)
GInit == Init /\ hist = <<>>
GStep == \/ \E p \in Prod : ProdStep(p) /\ H(p)
         \/ \E p \in Prod : Die(p) /\ RandomElement(1..6) = 1 /\ H(50 + p)
         \/ (Poll /\ H(0)) \/ (Apply /\ H(0)) \/ (Free /\ H(0)) \/ (Next1 /\ H(0))
         \/ Abandon /\ H(100)
         \/ Restart /\ RandomElement(1..4) = 1 /\ H(50)
\* a state without a successor ends the behaviour early
GNext == Len(hist) < Depth /\ (GStep \/ (~ENABLED GStep /\ hist' = [i \in 1..Depth |-> IF i <= Len(hist) THEN hist[i] ELSE 0] /\ UNCHANGED vars))
GSpec == GInit /\ [][GNext]_gvars
Emit == Len(hist) < Depth \/ PrintT("@H " \o ToJson(hist))
=============================================================================
