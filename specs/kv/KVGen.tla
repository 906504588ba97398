------------------------------- MODULE KVGen -------------------------------
(***************************************************************************)
(* Behaviours of KV, drawn by TLC (-simulate) and printed as JSON for the  *)
(* conformance driver.  Each behaviour works on a small random pool of     *)
(* keys so that its operations interact; the mix of operations is a        *)
(* constant so every check can weight what its property is about.          *)
(***************************************************************************)
EXTENDS KV, KeyTab24, Json
CONSTANTS Depth,     \* operations per behaviour
          PoolMax,   \* at most this many keys per behaviour
          W          \* weights <<add, overwrite, remove, clear, neutral1, neutral2, neutral3>>
WDef == <<40, 15, 35, 1, 3, 3, 3>>
VARIABLES pool, hist
gvars == <<m, n, pool, hist>>

RECURSIVE RandSub(_, _)
RandSub(S, c) == IF c = 0 \/ S = {} THEN {} ELSE LET x == RandomElement(S) IN {x} \cup RandSub(S \ {x}, c - 1)
GInit == Init /\ hist = <<>> /\ pool = {}
\* half of the pools are drawn below one key, so that they are nested
Draw == /\ pool = {} /\ UNCHANGED <<m, n, hist>>
        /\ \E c \in {RandomElement(2..PoolMax)}, nested \in {RandomElement(BOOLEAN)}, r \in {RandomElement({1, 2, 9, 16, 17})} :
              pool' = RandSub(IF nested THEN Range(ExtsOf[r]) \cup Range(PrefixesOf[r]) ELSE Keys, c)
RECURSIVE Cum(_)
Cum(i) == IF i = 0 THEN 0 ELSE W[i] + Cum(i - 1)
Rec(op, k, a, b) == hist' = Append(hist, <<op, k, a, b>>) /\ UNCHANGED pool
Step == \E w \in {RandomElement(1..Cum(7))}, k \in {RandomElement(pool)}, any \in {RandomElement(Keys)},
           z \in {RandomElement(1..3)}, y \in {RandomElement(1..8)} :
        LET q == IF y = 1 THEN any ELSE k IN
            \/ w \in 1..Cum(1)          /\ Add(k, FALSE) /\ Rec("a", k, 0, z)
            \/ w \in Cum(1)+1..Cum(2)   /\ Add(k, TRUE)  /\ Rec("a", k, 1, z)
            \/ w \in Cum(2)+1..Cum(3)   /\ Delete(q)     /\ Rec("r", q, 0, 0)
            \/ w \in Cum(3)+1..Cum(4)   /\ RemoveAll     /\ Rec("A", 0, 0, 0)
            \/ w \in Cum(4)+1..Cum(5)   /\ Neutral       /\ Rec("N", k, y, z)
            \/ w \in Cum(5)+1..Cum(6)   /\ Neutral       /\ Rec("O", k, y, z)
            \/ w \in Cum(6)+1..Cum(7)   /\ Neutral       /\ Rec("P", k, y, z)
GNext == Draw \/ (pool # {} /\ Len(hist) < Depth /\ Step)
GSpec == GInit /\ [][GNext]_gvars
Emit == Len(hist) < Depth \/ PrintT("@H " \o ToJson(hist))
=============================================================================
