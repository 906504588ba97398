------------------------------ MODULE LifeTrace ------------------------------
(***************************************************************************)
(* Validation of what the processes of the lifecycle driver experienced.   *)
(* Asynchronous writers move by themselves: their steps are not recorded.  *)
(* die = 1: the process died inside the operation.                         *)
(* j: progress inside a record of several answers.                         *)
(***************************************************************************)
EXTENDS Life, Json, TLC, TLCExt
CONSTANTS TraceFile
VARIABLES l, j
tvars == <<D, H, l, j>>
Log == ndJsonDeserialize(TraceFile)
Ev == Log[l]
IsEv(t) == l <= Len(Log) /\ Ev.e = t
Step == l' = l + 1 /\ j' = {}
TInit == LInit /\ l = 1 /\ j = {}
TReset == IsEv("reset") /\ D' = [d \in Dirs |-> NoDB] /\ H' = [h \in Handles |-> Closed] /\ Step
\* the status of a writer that is refused because there is one
Refusal(d, c, r) == r # 0 /\ (d \in Dirs /\ Cfg(c).wok => r = 17)
OpenStep(h, d, m, c, r) ==
    \/ m # "r" /\ r = 0 /\ OpenWriter(h, d, m, c)
    \/ m # "r" /\ (Refusal(d, c, r) = TRUE) /\ RefuseWriter(h, d, c)
    \/ m = "r" /\ r = 0 /\ OpenReader(h, d, c)
    \/ m = "r" /\ r # 0 /\ RefuseReader(h, d, c)
TOpen == IsEv("o") /\ Step /\ \/ Ev.die = 0 /\ OpenStep(Ev.h, Ev.d, Ev.m, Ev.c, Ev.r)
                              \/ Ev.die = 1 /\ CanOpen(Ev.h) /\ \E X \in TornOpen(Ev.d, Ev.m, Ev.c) : Die(ProcOf(Ev.h), X)
TRace == /\ IsEv("r") /\ UNCHANGED l
         /\ \E i \in DOMAIN Ev.os \ j : LET o == Ev.os[i] IN OpenStep(o.h, Ev.d, o.m, Ev.c, o.r) /\ j' = j \cup {i}
TRaceEnd == IsEv("r") /\ j = DOMAIN Ev.os /\ UNCHANGED <<D, H>> /\ Step
TClose == IsEv("c") /\ Step /\ \/ Ev.die = 0 /\ ((H[Ev.h].st = "failed" \/ Ev.r = 0) = TRUE) /\ Close(Ev.h)
                               \/ Ev.die = 1 /\ \E X \in {D, Release(D, Ev.h)} : Die(ProcOf(Ev.h), X)
Un == UNCHANGED <<D, H>>
\* what an update answers: 0, 5 absent, 6 present
Answer(m, u) == CASE u.op = "a" /\ u.ow = 0 /\ m[u.k] # 0 -> 6 [] u.op = "r" /\ m[u.k] = 0 -> 5 [] OTHER -> 0
TUpd == /\ IsEv("u") /\ Step /\ Live(Ev.h)
        /\ LET u == Upd(Ev.op, Ev.k, Ev.v, Ev.ow) h == Ev.h IN
           \/ Ev.die = 1 /\ \E X \in TornUpdate(h, u) : Die(ProcOf(h), X)
           \/ Ev.die = 0 /\ Stale(h) /\ Un
           \/ Ev.die = 0 /\ Good(h) /\ H[h].st = "w" /\ Update(h, u) /\ ((Ev.r = Answer(D[H[h].d].kv, u)) = TRUE)
           \/ Ev.die = 0 /\ Ev.r = 0 /\ Submit(h, u)
           \/ Ev.die = 0 /\ Ev.r = 13 /\ Full(h) /\ Un
TGet == /\ IsEv("g") /\ Live(Ev.h)
        /\ LET h == Ev.h x == D[H[h].d] IN
           IF Stale(h) THEN Un /\ Step
           ELSE IF x.owner # 0 /\ H[x.owner].st = "a"
           THEN IF j = Keys THEN Un /\ Step
                ELSE \E k \in {CHOOSE k \in Keys \ j : \A k2 \in Keys \ j : k <= k2} :
                     Sees(h, k, Ev.f[k]) /\ Un /\ UNCHANGED l /\ j' = j \cup {k}
           ELSE H[h].st # "a" /\ ((\E m \in Cands(x) : \A k \in Keys : m[k] = Ev.f[k] \/ (x.torn /\ Ev.f[k] = 0)) = TRUE) /\ Un /\ Step
TCount == IsEv("n") /\ Live(Ev.h) /\ ((Stale(Ev.h) \/ Counts(Ev.h, Ev.n)) = TRUE) /\ Un /\ Step
TWait == /\ IsEv("w") /\ Live(Ev.h) /\ Step
         /\ \/ Ev.die = 0 /\ Ev.r = 0 /\ ((Stale(Ev.h) \/ D[H[Ev.h].d].q = <<>>) = TRUE) /\ Un
            \/ Ev.die = 1 /\ Die(ProcOf(Ev.h), D)
TKill == IsEv("k") /\ Die(Ev.p, D) /\ Step
TDam == IsEv("x") /\ Damage(Ev.d, Ev.k) /\ Step
TCopy == /\ IsEv("b") /\ Live(Ev.h) /\ Step
         /\ \/ Ev.die = 0 /\ Ev.r = 0 /\ Copy(Ev.h, Ev.d)
            \/ Ev.die = 0 /\ Ev.r # 0 /\ D[Ev.d].file # "none" /\ Un
            \/ Ev.die = 1 /\ \E X \in TornCopy(Ev.h, Ev.d) : Die(ProcOf(Ev.h), X)
TRc == IsEv("z") /\ Live(Ev.h) /\ Step /\ \/ Ev.die = 0 /\ Ev.r = 0 /\ Un
                                          \/ Ev.die = 1 /\ Die(ProcOf(Ev.h), D)
TMove == l <= Len(Log) /\ (\E d \in Dirs : Apply(d)) /\ UNCHANGED <<l, j>>
TNext == TReset \/ TOpen \/ TRace \/ TRaceEnd \/ TClose \/ TUpd \/ TGet \/ TCount \/ TWait \/ TKill \/ TDam \/ TCopy \/ TRc \/ TMove
Mark == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
MarkInit == TInit /\ TLCSet(1, 1)
VSpec == MarkInit /\ [][TNext]_tvars
Accepted == PrintT(<<"@D", TLCGet(1) - 1, Len(Log)>>)
=============================================================================
