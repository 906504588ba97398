------------------------------ MODULE StoreGen ------------------------------
(***************************************************************************)
(* Programs for the storage driver, drawn from Store by TLC (-simulate).   *)
(***************************************************************************)
EXTENDS Store, Json, TLC
CONSTANTS Depth, W, NK, EPB, SizeSet, MaxBump
\*        add overwrite remove bump clear reopen collect evict cycle
WDef == <<30, 16, 24, 4, 1, 6, 5, 6, 0>>
VARIABLES hist, ver, body
gvars == <<nk, epb, val, st, n, hist, ver, body>>
GInit == nk = NK /\ epb = EPB /\ val = [k \in 0..NK |-> 0] /\ st = [k \in 0..NK |-> 0] /\ n = 0 /\ hist = <<>> /\ ver = 0 /\ body = 0
RECURSIVE Cum(_)
Cum(i) == IF i = 0 THEN 0 ELSE W[i] + Cum(i - 1)
Rec(s) == hist' = hist \o s
Show == <<"s", IF RandomElement(1..4) = 1 THEN 1 ELSE 0>>
\* most ranges are short, some cover everything
PickN(x) == CASE RandomElement(1..6) <= 3 -> RandomElement(1..6) [] RandomElement(1..3) <= 2 -> RandomElement(1..((NK \div 3) + 1)) [] OTHER -> NK
PickK(x) == IF RandomElement(1..4) = 1 THEN 1 ELSE RandomElement(1..NK)
Adding(ow) == \E k \in {PickK(hist)}, c \in {PickN(hist)}, d \in {RandomElement({1, 1, 1, 2, 3, 7})}, z \in {RandomElement(SizeSet)} :
          AddMany(k, c, d, ver + 1, ow) /\ Rec(<<<<"a", k, c, d, z, ow>>, Show>>) /\ ver' = ver + c /\ UNCHANGED body
Removing == \E k \in {PickK(hist)}, c \in {PickN(hist)}, d \in {RandomElement({1, 1, 1, 2, 3, 7})} :
          RemoveMany(k, c, d) /\ Rec(<<<<"r", k, c, d>>, Show>>) /\ UNCHANGED <<ver, body>>
Bumping == body = 0 /\ \E c \in {RandomElement({RandomElement(1..20), RandomElement(1..400), RandomElement(1..MaxBump)})} : Bump(c) /\ Rec(<<<<"B", c>>, Show>>) /\ UNCHANGED <<ver, body>>
Clearing == Clear /\ Rec(<<<<"A">>, Show>>) /\ UNCHANGED <<ver, body>>
Same == UNCHANGED <<nk, epb, val, st, n, ver, body>>
Reopening == Same /\ Rec(<<<<"o">>, Show>>)
Collecting == Same /\ Rec(<<<<"c">>, Show>>)
\* what goes is up to the implementation: here, whatever is older than some bucket
Evicting == body = 0 /\ UNCHANGED <<ver, body>> /\ \E kind \in {RandomElement(0..3)}, pct \in {RandomElement({0, 10, 30, 50, 70, 90, 99, 100, 120})}, g \in {RandomElement(0..1)} :
            /\ Rec(<<<<"E", kind, pct, g>>, Show>>)
            /\ LET L == Live IN \E b \in {IF L = {} THEN 0 ELSE Bucket(RandomElement(L))} : \E R \in {{k \in L : Bucket(k) < b}} : Evict(R)
Cycling == body = 0 /\ UNCHANGED <<nk, epb, val, st, n, ver>> /\ \E c \in {RandomElement(2..6)} : body' = c /\ Rec(<<<<"Y", 16, 2 * c>>>>)
Move == \E w \in {RandomElement(1..Cum(9))} :
        \/ w \in 1..Cum(1) /\ Adding(0)
        \/ w \in Cum(1)+1..Cum(2) /\ Adding(1)
        \/ w \in Cum(2)+1..Cum(3) /\ Removing
        \/ w \in Cum(3)+1..Cum(4) /\ Bumping
        \/ w \in Cum(4)+1..Cum(5) /\ Clearing
        \/ w \in Cum(5)+1..Cum(6) /\ Reopening
        \/ w \in Cum(6)+1..Cum(7) /\ Collecting
        \/ w \in Cum(7)+1..Cum(8) /\ Evicting
        \/ w \in Cum(8)+1..Cum(9) /\ Cycling
\* the body of a cycle: updates only (no bumps or evictions), body counts down
Done == body = 0 /\ Len(hist) >= Depth
InBody == body > 0 /\ \E w \in {RandomElement(1..20)} :
        \/ w <= 7 /\ (\E k \in {PickK(hist)}, c \in {PickN(hist)}, d \in {RandomElement({1, 1, 2, 3})}, z \in {RandomElement(SizeSet)}, ow \in {RandomElement(0..1)} :
              AddMany(k, c, d, ver + 1, ow) /\ Rec(<<<<"a", k, c, d, z, ow>>, <<"s", 0>>>>)) /\ ver' = ver + NK /\ body' = body - 1
        \/ w \in 8..16 /\ (\E k \in {PickK(hist)}, c \in {PickN(hist)}, d \in {RandomElement({1, 1, 2, 3})} :
              RemoveMany(k, c, d) /\ Rec(<<<<"r", k, c, d>>, <<"s", 0>>>>)) /\ body' = body - 1 /\ UNCHANGED ver
        \/ w = 17 /\ Clear /\ Rec(<<<<"A">>, <<"s", 0>>>>) /\ body' = body - 1 /\ UNCHANGED ver
        \/ w = 18 /\ UNCHANGED <<nk, epb, val, st, n, ver>> /\ Rec(<<<<"c">>, <<"s", 0>>>>) /\ body' = body - 1
        \/ w > 18 /\ UNCHANGED <<nk, epb, val, st, n, ver>> /\ Rec(<<<<"o">>, <<"s", 0>>>>) /\ body' = body - 1
Idle == UNCHANGED gvars
GNext == \/ InBody
         \/ (body = 0 /\ Len(hist) < Depth) /\ (Move \/ Idle)
GSpec == GInit /\ [][GNext]_gvars
Emit == (~Done) \/ PrintT("@H " \o ToJson(hist))
=============================================================================
