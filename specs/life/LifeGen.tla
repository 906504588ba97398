------------------------------- MODULE LifeGen -------------------------------
(***************************************************************************)
(* Programs drawn from Life by TLC (-simulate): opens, races, updates,     *)
(* lookups, copies, damage, deaths.  An outcome that the specification     *)
(* leaves open is drawn as well; the real one is judged by LifeTrace.      *)
(***************************************************************************)
EXTENDS Life, Json, TLC
CONSTANTS Depth, W, CfgSet, OneOpen, Kills
\*        open update lookup count wait close kill damage copy collect race
WDef == <<24, 30, 14, 4, 6, 14, 4, 4, 3, 3, 3>>
VARIABLES hist, todo, ver, opened
gvars == <<D, H, hist, todo, ver, opened>>
GInit == LInit /\ hist = <<>> /\ todo = <<>> /\ ver = 0 /\ opened = {}
RECURSIVE Cum(_)
Cum(i) == IF i = 0 THEN 0 ELSE W[i] + Cum(i - 1)
Rec(s) == hist' = Append(hist, s)
Killed(X, h, n, s) == /\ (\E Y \in {RandomElement(X)} : Die(ProcOf(h), Y)) /\ Rec(Append(s, n)) /\ opened' = opened \ {ProcOf(h)} /\ UNCHANGED <<todo, ver>>
Keep == UNCHANGED <<todo, ver, opened>>
Rd(v) == v \in Dirs
OpenStep(h, d, m, c) == \/ m # "r" /\ OpenWriter(h, d, m, c)
                        \/ m # "r" /\ RefuseWriter(h, d, c)
                        \/ m = "r" /\ OpenReader(h, d, c)
                        \/ m = "r" /\ RefuseReader(h, d, c)
MNum(m) == CASE m = "r" -> 0 [] m = "w" -> 1 [] OTHER -> 2
MayOpen(h) == CanOpen(h) /\ (OneOpen => ProcOf(h) \notin opened)
\* a configuration, most often the one in force
PickCfg(d) == LET own == IF d \in Dirs /\ D[d].file = "ok" THEN {D[d].base} \cap CfgSet ELSE {} IN
              IF own # {} /\ RandomElement(1..10) <= 7 THEN RandomElement(own) ELSE RandomElement(CfgSet)
KillN(s) == IF RandomElement(1..100) > Kills THEN 0 ELSE CASE RandomElement(1..3) = 1 -> RandomElement(1..12) [] RandomElement(1..2) = 1 -> RandomElement(1..60) [] OTHER -> RandomElement(1..400)
OpenSet == {h \in Handles : MayOpen(h)}
LiveSet == {h \in Handles : Good(h)}
AnySet == {h \in Handles : H[h].st # "closed"}
Writers == {h \in LiveSet : H[h].st = "w"}
Submitters == {h \in LiveSet : H[h].st # "w"}
GOpen == OpenSet # {} /\ \E h \in {RandomElement(OpenSet)}, d \in {IF OneOpen /\ RandomElement(1..6) > 1 THEN 1 ELSE (RandomElement(1..10) + 4) \div 5 + (IF RandomElement(1..15) = 1 THEN 1 ELSE 0)}, n \in {KillN(hist)}, m \in {IF OneOpen THEN RandomElement({"w", "r"}) ELSE RandomElement({"r", "w", "a"})} :
         \E c \in {PickCfg(d)} :
           /\ ~(m # "r" /\ c = 10)
           /\ ~(m = "a" /\ (Cfg(c).jem \/ (d \in Dirs /\ D[d].file = "ok" /\ Cfg(D[d].base).jem)))
           /\ \/ n = 0 /\ OpenStep(h, d, m, c) /\ Rec(<<"o", h, d, MNum(m), c, 0>>) /\ opened' = opened \cup {ProcOf(h)} /\ UNCHANGED <<todo, ver>>
              \/ n > 0 /\ Killed(TornOpen(d, m, c), h, n, <<"o", h, d, MNum(m), c>>)
GUpd == LiveSet # {} /\ \E h \in {IF Writers # {} /\ RandomElement(1..3) > 1 THEN RandomElement(Writers) ELSE RandomElement(LiveSet)}, k \in {RandomElement(Keys)}, w \in {RandomElement(1..20)}, n \in {KillN(hist)} :
         \E op \in {IF w <= 13 THEN "a" ELSE IF w <= 19 THEN "r" ELSE "x"}, ow \in {RandomElement(0..1)} :
         LET u == Upd(op, k, ver + 1, ow) kk == IF H[h].st = "w" THEN n ELSE 0 IN
         \/ kk = 0 /\ (Update(h, u) \/ Submit(h, u)) /\ Rec(<<"u", h, op, k, ow, 0>>) /\ ver' = ver + 1 /\ UNCHANGED <<todo, opened>>
         \/ kk > 0 /\ Killed(TornUpdate(h, u), h, kk, <<"u", h, op, k, ow>>)
GGet == LiveSet # {} /\ \E h \in {RandomElement(LiveSet)} : UNCHANGED lvars /\ Rec(<<"g", h>>) /\ Keep
GCount == LiveSet # {} /\ \E h \in {RandomElement(LiveSet)} : UNCHANGED lvars /\ Rec(<<"n", h>>) /\ Keep
\* waiting, and whatever the asynchronous writers do meanwhile
RECURSIVE Drain(_)
Drain(x) == IF x.q = <<>> THEN x ELSE Drain([x EXCEPT !.kv = Effect(@, Head(x.q)), !.q = Tail(@)])
GWait == \E S \in {{h \in LiveSet : H[h].st = "a"}} : S # {} /\ \E h \in {RandomElement(S)}, n \in {KillN(hist)} :
         LET X == [D EXCEPT ![H[h].d] = Drain(@)] IN
         \/ n = 0 /\ D' = X /\ H' = H /\ Rec(<<"w", h, 0>>) /\ Keep
         \/ n > 0 /\ Killed({D, X}, h, n, <<"w", h>>)
GClose == AnySet # {} /\ \E h \in {RandomElement(AnySet)}, n \in {KillN(hist)} :
         \/ n = 0 /\ Close(h) /\ Rec(<<"c", h, 0>>) /\ Keep
         \/ n > 0 /\ Killed({D, Release(D, h)}, h, n, <<"c", h>>)
GKill == \E p \in {RandomElement(Procs)} : Die(p, D) /\ Rec(<<"k", p>>) /\ opened' = opened \ {p} /\ UNCHANGED <<todo, ver>>
GDam == \E d \in {RandomElement(Dirs)}, k \in {RandomElement(1..4)}, a \in {RandomElement(0..1)} :
         LET Others == {h \in Handles : H[h].st # "closed"} IN
         Damage(d, k) /\ (a = 0 \/ Others = {}) /\ Rec(<<"x", d, k, a>>) /\ Keep
GCopy == Writers # {} /\ \E h \in {RandomElement(Writers)}, n \in {KillN(hist)} : LET d2 == 3 - H[h].d IN
         /\ CanCopy(h, d2) /\ ~Cfg(D[H[h].d].base).jem
         /\ \/ n = 0 /\ Copy(h, d2) /\ Rec(<<"b", h, d2, 0>>) /\ Keep
            \/ n > 0 /\ Killed(TornCopy(h, d2), h, n, <<"b", h, d2>>)
GRc == Writers # {} /\ \E h \in {RandomElement(Writers)}, n \in {KillN(hist)} :
         \/ n = 0 /\ UNCHANGED lvars /\ Rec(<<"z", h, 0>>) /\ Keep
         \/ n > 0 /\ Killed({D}, h, n, <<"z", h>>)
GRace == /\ \A h \in {1, 3, 5} : MayOpen(h)
         /\ \E d \in {RandomElement(Dirs)}, ms \in {[i \in 1..3 |-> RandomElement(-1..1)]}, s \in {RandomElement({<<1, 2, 3>>, <<2, 3, 1>>, <<3, 1, 2>>})} : \E c \in {PickCfg(d)} :
            /\ ~(c = 10 /\ \E i \in 1..3 : ms[i] = 1)
            /\ Rec(<<"r", d, c, ms[1], ms[2], ms[3]>>) /\ UNCHANGED <<D, H, ver, opened>>
            /\ todo' = SelectSeq([i \in 1..3 |-> <<2 * s[i] - 1, d, ms[s[i]], c>>], LAMBDA x : x[3] >= 0)
Todo == /\ todo # <<>> /\ todo' = Tail(todo) /\ UNCHANGED <<hist, ver>>
        /\ LET x == Head(todo) IN OpenStep(x[1], x[2], IF x[3] = 0 THEN "r" ELSE "w", x[4]) /\ opened' = opened \cup {ProcOf(x[1])}
Move == \E w \in {RandomElement(1..Cum(11))} :
        \/ w \in 1..Cum(1) /\ GOpen
        \/ w \in Cum(1)+1..Cum(2) /\ GUpd
        \/ w \in Cum(2)+1..Cum(3) /\ GGet
        \/ w \in Cum(3)+1..Cum(4) /\ GCount
        \/ w \in Cum(4)+1..Cum(5) /\ GWait
        \/ w \in Cum(5)+1..Cum(6) /\ GClose
        \/ w \in Cum(6)+1..Cum(7) /\ GKill
        \/ w \in Cum(7)+1..Cum(8) /\ GDam
        \/ w \in Cum(8)+1..Cum(9) /\ GCopy
        \/ w \in Cum(9)+1..Cum(10) /\ GRc
        \/ w \in Cum(10)+1..Cum(11) /\ GRace
Idle == UNCHANGED gvars
GNext == Todo \/ (todo = <<>> /\ Len(hist) < Depth /\ (Move \/ Idle))
GSpec == GInit /\ [][GNext]_gvars
Emit == Len(hist) < Depth \/ todo # <<>> \/ PrintT("@H " \o ToJson(hist))
=============================================================================
