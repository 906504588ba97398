------------------------------ MODULE ShmQueue ------------------------------
(***************************************************************************)
(* The shared-memory queue between submitters (reader handles of any       *)
(* process) and the one async writer: a ring of Size slots, a ticket       *)
(* counter qi and the writer's position wi.  One atomic access is one      *)
(* step.  Submitters may die at any step; the writer gives a slot up when  *)
(* its owner seems dead (at any time here: a time-out proves nothing), and *)
(* the writer process may die and be replaced at any step.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Prod, Size, MaxSub, MaxDeath, MaxAband, MaxRestart
VARIABLES qi, wi, st, d1, d2, pc, tk, sub, acked, applied, cpc, deaths, abands, restarts, who
vars == <<qi, wi, st, d1, d2, pc, tk, sub, acked, applied, cpc, deaths, abands, restarts, who>>
Slot == 0..Size - 1
FREE == 0  OWN == 1  ABAND == 2  READY == 3
None == <<0, 0>>
S(t) == t % Size
Init == /\ qi = 0 /\ wi = 0 /\ st = [s \in Slot |-> FREE] /\ d1 = [s \in Slot |-> None] /\ d2 = [s \in Slot |-> None]
        /\ pc = [p \in Prod |-> "idle"] /\ tk = [p \in Prod |-> 0] /\ sub = [p \in Prod |-> 0]
        /\ acked = [p \in Prod |-> <<>>] /\ applied = <<>> /\ cpc = "poll" /\ deaths = 0 /\ abands = 0 /\ restarts = 0 /\ who = 0
CU(p) == who' = p /\ UNCHANGED <<wi, applied, cpc, abands, restarts>>
Me(p) == <<p, sub[p]>>
Goto(p, l) == pc' = [pc EXCEPT ![p] = l]
\* a submission starts: read the ticket counter
Begin(p) == /\ pc[p] = "idle" /\ sub[p] < MaxSub /\ sub' = [sub EXCEPT ![p] = @ + 1] /\ tk' = [tk EXCEPT ![p] = qi] /\ Goto(p, "full")
            /\ UNCHANGED <<qi, st, d1, d2, acked, deaths>> /\ CU(p)
Again(p) == /\ pc[p] = "read" /\ tk' = [tk EXCEPT ![p] = qi] /\ Goto(p, "full") /\ UNCHANGED <<qi, st, d1, d2, sub, acked, deaths>> /\ CU(p)
\* no room: answered with try-again
Full(p) == /\ pc[p] = "full" /\ Goto(p, IF tk[p] - wi >= Size THEN "idle" ELSE "claim")
           /\ UNCHANGED <<qi, st, d1, d2, tk, sub, acked, deaths>> /\ CU(p)
Claim(p) == /\ pc[p] = "claim"
            /\ CASE st[S(tk[p])] = FREE  -> st' = [st EXCEPT ![S(tk[p])] = OWN] /\ Goto(p, "ticket")
                 [] st[S(tk[p])] = ABAND -> st' = st /\ Goto(p, "skip")
                 [] OTHER                -> st' = st /\ Goto(p, "idle")
            /\ UNCHANGED <<qi, d1, d2, tk, sub, acked, deaths>> /\ CU(p)
\* a slot its owner never finished is passed over
Skip(p) == /\ pc[p] = "skip" /\ qi' = (IF qi = tk[p] THEN qi + 1 ELSE qi) /\ Goto(p, "read")
           /\ UNCHANGED <<st, d1, d2, tk, sub, acked, deaths>> /\ CU(p)
Ticket(p) == /\ pc[p] = "ticket"
             /\ IF qi = tk[p] THEN qi' = qi + 1 /\ Goto(p, "fill1") ELSE qi' = qi /\ Goto(p, "release")
             /\ UNCHANGED <<st, d1, d2, tk, sub, acked, deaths>> /\ CU(p)
Release(p) == /\ pc[p] = "release" /\ st' = [st EXCEPT ![S(tk[p])] = FREE] /\ Goto(p, "read")
              /\ UNCHANGED <<qi, d1, d2, tk, sub, acked, deaths>> /\ CU(p)
Fill1(p) == /\ pc[p] = "fill1" /\ d1' = [d1 EXCEPT ![S(tk[p])] = Me(p)] /\ Goto(p, "fill2")
            /\ UNCHANGED <<qi, st, d2, tk, sub, acked, deaths>> /\ CU(p)
Fill2(p) == /\ pc[p] = "fill2" /\ d2' = [d2 EXCEPT ![S(tk[p])] = Me(p)] /\ Goto(p, "publish")
            /\ UNCHANGED <<qi, st, d1, tk, sub, acked, deaths>> /\ CU(p)
Publish(p) == /\ pc[p] = "publish"
              /\ IF st[S(tk[p])] = OWN
                 THEN st' = [st EXCEPT ![S(tk[p])] = READY] /\ acked' = [acked EXCEPT ![p] = Append(@, sub[p])] /\ Goto(p, "idle")
                 ELSE st' = st /\ acked' = acked /\ Goto(p, "giveup")
              /\ UNCHANGED <<qi, d1, d2, tk, sub, deaths>> /\ CU(p)
GiveUp(p) == /\ pc[p] = "giveup" /\ st' = [st EXCEPT ![S(tk[p])] = FREE] /\ Goto(p, "idle")
             /\ UNCHANGED <<qi, d1, d2, tk, sub, acked, deaths>> /\ CU(p)
Die(p) == /\ pc[p] # "idle" /\ pc[p] # "dead" /\ deaths < MaxDeath /\ deaths' = deaths + 1 /\ Goto(p, "dead")
          /\ UNCHANGED <<qi, st, d1, d2, tk, sub, acked>> /\ CU(p)
\* p is alive and has claimed slot s
Holds(p, s) == S(tk[p]) = s /\ pc[p] \in {"ticket", "release", "fill1", "fill2", "publish"}
PU == who' = 0 /\ UNCHANGED <<qi, pc, tk, sub, acked, d1, d2, deaths>>
Poll == /\ cpc = "poll"
        /\ CASE st[S(wi)] = READY -> cpc' = "apply"
             [] st[S(wi)] # READY /\ wi # qi /\ st[S(wi)] # OWN -> cpc' = "next"
             [] OTHER -> FALSE
        /\ UNCHANGED <<wi, st, applied, abands, restarts>> /\ PU
\* only giving up a slot of somebody alive is bounded; there need not be a ticket for it yet
Abandon == /\ cpc = "poll" /\ st[S(wi)] = OWN
           /\ IF \E p \in Prod : Holds(p, S(wi)) THEN abands < MaxAband /\ abands' = abands + 1 ELSE abands' = abands
           /\ st' = [st EXCEPT ![S(wi)] = ABAND] /\ cpc' = (IF wi # qi THEN "next" ELSE "poll") /\ UNCHANGED <<wi, applied, restarts>> /\ PU
Apply == /\ cpc = "apply" /\ applied' = Append(applied, <<d1[S(wi)], d2[S(wi)]>>) /\ cpc' = "free" /\ UNCHANGED <<wi, st, abands, restarts>> /\ PU
Free == /\ cpc = "free" /\ st' = [st EXCEPT ![S(wi)] = FREE] /\ cpc' = "next" /\ UNCHANGED <<wi, applied, abands, restarts>> /\ PU
Next1 == /\ cpc = "next" /\ wi' = wi + 1 /\ cpc' = "poll" /\ UNCHANGED <<st, applied, abands, restarts>> /\ PU
\* the async writer dies; its successor starts over (applying an update twice in a row is harmless)
Restart == /\ restarts < MaxRestart /\ cpc # "poll" /\ restarts' = restarts + 1 /\ cpc' = "poll"
           /\ UNCHANGED <<wi, st, applied, abands>> /\ PU
ProdStep(p) == Begin(p) \/ Again(p) \/ Full(p) \/ Claim(p) \/ Skip(p) \/ Ticket(p) \/ Release(p) \/ Fill1(p) \/ Fill2(p) \/ Publish(p) \/ GiveUp(p)
WriterStep == Poll \/ Abandon \/ Apply \/ Free \/ Next1
Next == (\E p \in Prod : ProdStep(p) \/ Die(p)) \/ WriterStep \/ Restart
Spec == Init /\ [][Next]_vars
View == <<qi, wi, st, d1, d2, pc, tk, sub, acked, applied, cpc, deaths, abands, restarts>>
----------------------------------------------------------------------------
\* what was applied, without immediate repetitions (a writer that died between applying and freeing)
RECURSIVE Dedup(_)
Dedup(q) == IF Len(q) < 2 THEN q ELSE IF q[1] = q[2] THEN Dedup(Tail(q)) ELSE <<q[1]>> \o Dedup(Tail(q))
A == Dedup(applied)
IsPrefix1(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
\* nothing is applied half filled or unacknowledged, each at most once, in each submitter's order
Whole == \A i \in DOMAIN applied : applied[i][1] = applied[i][2]
Of(p) == LET q == SelectSeq(A, LAMBDA x : x[1][1] = p) IN [i \in DOMAIN q |-> q[i][1][2]]
InOrder == \A p \in Prod : IsPrefix1(Of(p), acked[p])
\* once everybody is idle or dead and the writer has caught up, everything acknowledged was applied
Drained == wi = qi /\ cpc = "poll" /\ \A p \in Prod : pc[p] \in {"idle", "dead"}
Complete == Drained => \A p \in Prod : Of(p) = acked[p]
Bounded == qi - wi <= Size
\* the writer can always make progress unless a living submitter is in the middle of something
NoStall == (wi # qi /\ cpc = "poll" /\ st[S(wi)] = OWN) => (\E p \in Prod : pc[p] \in {"ticket", "release", "fill1", "fill2", "publish", "dead"} /\ S(tk[p]) = S(wi))
\* wherever submitters died: when nothing is under way any more everything is drained, and a new submission can be
\* accepted (a dead submitter costs at most its slot)
Quiet == cpc = "poll" /\ (\A p \in Prod : pc[p] \in {"idle", "dead"}) /\ ~ENABLED WriterStep
\* (a slot elsewhere that a dead submitter holds is given up when the writer gets there)
Usable == Quiet => wi = qi /\ st[S(wi)] \in {FREE, ABAND} /\ (\A s \in Slot : st[s] # READY) /\ Cardinality({s \in Slot : st[s] # FREE}) <= deaths
=============================================================================
