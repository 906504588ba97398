------------------------------ MODULE AsyncGen ------------------------------
(***************************************************************************)
(* Behaviours of AsyncKV drawn by TLC (-simulate): the programs of the     *)
(* submitters and the order in which they and the writer move.             *)
(***************************************************************************)
EXTENDS AsyncKV, Json, TLC
CONSTANTS Depth, W   \* weights <<add, overwrite, remove, lookup, retrying add, retrying remove, collect, remove-all, writer>>
WDef == <<20, 20, 14, 14, 6, 3, 3, 2, 18>>
VARIABLES pool, hist, live
gvars == <<kv, q, bal, pool, hist, live>>
RECURSIVE RandSub(_, _)
RandSub(S, c) == IF c = 0 \/ S = {} THEN {} ELSE LET x == RandomElement(S) IN {x} \cup RandSub(S \ {x}, c - 1)
GInit == AInit /\ pool = {} /\ hist = <<>> /\ live = {}
Draw == /\ pool = {} /\ UNCHANGED <<kv, q, bal, hist>>
        /\ \E c \in {RandomElement(1..4)}, n \in {RandomElement(1..NP)} : pool' = RandSub(AKeys, c) /\ live' = 1..n
RECURSIVE Cum(_)
Cum(i) == IF i = 0 THEN 0 ELSE W[i] + Cum(i - 1)
Rec(p, op, k, b) == hist' = Append(hist, <<p, op, k, b>>) /\ UNCHANGED <<pool, live>>
Id == 100 + Len(hist)
Move == \E w \in {RandomElement(1..Cum(9))}, p \in {RandomElement(live)}, k \in {RandomElement(pool)}, b \in {RandomElement(0..1)} :
        \/ w \in 1..Cum(1)        /\ Submit(p, Upd("a", k, Id, 0)) /\ Rec(p, "a", k, 0)
        \/ w \in Cum(1)+1..Cum(2) /\ Submit(p, Upd("a", k, Id, 1)) /\ Rec(p, "a", k, 1)
        \/ w \in Cum(2)+1..Cum(3) /\ Submit(p, Upd("r", k, Id, 0)) /\ Rec(p, "r", k, 0)
        \/ w \in Cum(3)+1..Cum(4) /\ UNCHANGED avars /\ Rec(p, "g", k, 0)
        \/ w \in Cum(4)+1..Cum(5) /\ Submit(p, Upd("a", k, Id, b)) /\ Rec(p, "A", k, b)
        \/ w \in Cum(5)+1..Cum(6) /\ Submit(p, Upd("r", k, Id, 0)) /\ Rec(p, "D", k, 0)
        \/ w \in Cum(6)+1..Cum(7) /\ Submit(p, Upd("R", 0, Id, 0)) /\ Rec(p, "R", 0, 0)
        \/ w \in Cum(7)+1..Cum(8) /\ Submit(p, Upd("x", 0, Id, 0)) /\ Rec(p, "x", 0, 0)
        \/ w \in Cum(8)+1..Cum(9) /\ (IF q[p] # <<>> THEN Apply(p) ELSE UNCHANGED avars) /\ Rec(0, "w", 0, 0)
GNext == Draw \/ (pool # {} /\ Len(hist) < Depth /\ Move)
GSpec == GInit /\ [][GNext]_gvars
Emit == Len(hist) < Depth \/ PrintT("@H " \o ToJson(hist))
=============================================================================
