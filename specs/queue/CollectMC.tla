----------------------------- MODULE CollectMC -----------------------------
(***************************************************************************)
(* Updates and lookups while the async writer collects: new entries go to  *)
(* a second tree (rc) that lookups prefer to the main tree; removals wait; *)
(* when the collection is over, or at the next start if the writer died in *)
(* it, the second tree is merged into the main tree entry by entry and     *)
(* only then switched off.  A lookup reads the switch, then the second     *)
(* tree, then the main tree, each at its own moment.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NK, MaxOps, MaxDeath, NR
VARIABLES main, rc, on, ph, inq, done, seen, pcs, at, deaths
vars == <<main, rc, on, ph, inq, done, seen, pcs, at, deaths>>
K == 1..NK
R == 1..NR
Empty == [k \in K |-> 0]
Op(t, k, v, ow) == [t |-> t, k |-> k, v |-> v, ow |-> ow]
Effect(m, o) == CASE o.t = "a" -> (IF o.ow = 1 \/ m[o.k] = 0 THEN [m EXCEPT ![o.k] = o.v] ELSE m)
                  [] o.t = "r" -> [m EXCEPT ![o.k] = 0]
                  [] OTHER -> m
RECURSIVE Fold(_, _)
Fold(m, s) == IF s = <<>> THEN m ELSE Fold(Effect(m, Head(s)), Tail(s))
View(m, r, o) == [k \in K |-> IF o /\ r[k] # 0 THEN r[k] ELSE m[k]]
Init == /\ main = Empty /\ rc = Empty /\ on = FALSE /\ ph = "idle" /\ inq = <<>> /\ done = <<>> /\ deaths = 0
        /\ pcs = [r \in R |-> "idle"] /\ at = [r \in R |-> 1] /\ seen = [r \in R |-> {}]
\* every lookup under way could answer with what is true now
Look(m, r, o) == seen' = [x \in R |-> IF pcs[x] = "idle" THEN {} ELSE seen[x] \cup {View(m, r, o)[at[x]]}]
WU == UNCHANGED <<pcs, at>>
Submit == /\ Len(inq) + Len(done) < MaxOps
          /\ \E k \in K, t \in {"a", "r", "c"}, ow \in {0, 1} :
               /\ (t # "a" => ow = 0) /\ (t = "c" => k = 1)
               /\ inq' = Append(inq, Op(t, k, Len(inq) + Len(done) + 1, ow))
          /\ UNCHANGED <<main, rc, on, ph, done, seen, pcs, at, deaths>>
Take == done' = Append(done, Head(inq)) /\ inq' = Tail(inq)
\* outside of a collection
Run == /\ ph = "idle" /\ inq # <<>> /\ Head(inq).t # "c" /\ Take
       /\ main' = Effect(main, Head(inq)) /\ Look(main', rc, on) /\ UNCHANGED <<rc, on, ph, deaths>> /\ WU
Start == /\ ph = "idle" /\ inq # <<>> /\ Head(inq).t = "c" /\ Take /\ ph' = "collect" /\ rc' = Empty
         /\ on' = TRUE /\ Look(main, rc', on') /\ UNCHANGED <<main, deaths>> /\ WU
\* during it: a removal, and with it everything behind it, waits; another collection is ignored
Task == /\ ph = "collect" /\ inq # <<>> /\ Head(inq).t # "r" /\ Take
        /\ LET o == Head(inq) IN
           rc' = (IF o.t = "a" /\ (o.ow = 1 \/ (main[o.k] = 0 /\ rc[o.k] = 0)) THEN [rc EXCEPT ![o.k] = o.v] ELSE rc)
        /\ Look(main, rc', on) /\ UNCHANGED <<main, on, ph, deaths>> /\ WU
Over == ph = "collect" /\ ph' = "merge" /\ UNCHANGED <<main, rc, on, inq, done, seen, deaths>> /\ WU
Merge == /\ ph = "merge" /\ \E k \in K : rc[k] # 0 /\ main[k] # rc[k] /\ main' = [main EXCEPT ![k] = rc[k]]
         /\ Look(main', rc, on) /\ UNCHANGED <<rc, on, ph, inq, done, deaths>> /\ WU
Off == /\ ph = "merge" /\ (\A k \in K : rc[k] # 0 => main[k] = rc[k]) /\ on' = FALSE /\ ph' = "clear" /\ Look(main, rc, on')
       /\ UNCHANGED <<main, rc, inq, done, deaths>> /\ WU
Clear == /\ ph = "clear" /\ rc' = Empty /\ ph' = "idle" /\ Look(main, rc', on) /\ UNCHANGED <<main, on, inq, done, deaths>> /\ WU
\* the writer dies: its successor merges what is switched on
Die == /\ deaths < MaxDeath /\ ph \in {"collect", "merge", "clear"} /\ deaths' = deaths + 1
       /\ ph' = (IF on THEN "merge" ELSE "idle") /\ UNCHANGED <<main, rc, on, inq, done, seen>> /\ WU
RU == UNCHANGED <<main, rc, on, ph, inq, done, deaths>>
Begin(r) == /\ pcs[r] = "idle" /\ \E k \in K : at' = [at EXCEPT ![r] = k] /\ seen' = [seen EXCEPT ![r] = {View(main, rc, on)[k]}]
            /\ pcs' = [pcs EXCEPT ![r] = IF on THEN "rc" ELSE "main"] /\ RU
ReadRc(r) == /\ pcs[r] = "rc" /\ RU /\ UNCHANGED at
             /\ IF rc[at[r]] # 0
                THEN Assert(rc[at[r]] \in seen[r], "a lookup answered from the second tree with a value that was never current") /\ pcs' = [pcs EXCEPT ![r] = "idle"] /\ seen' = [seen EXCEPT ![r] = {}]
                ELSE pcs' = [pcs EXCEPT ![r] = "main"] /\ seen' = seen
ReadMain(r) == /\ pcs[r] = "main" /\ RU /\ UNCHANGED at
               /\ Assert(main[at[r]] \in seen[r], "a lookup answered from the main tree with a value that was never current")
               /\ pcs' = [pcs EXCEPT ![r] = "idle"] /\ seen' = [seen EXCEPT ![r] = {}]
Next == Submit \/ Run \/ Start \/ Task \/ Over \/ Merge \/ Off \/ Clear \/ Die \/ \E r \in R : Begin(r) \/ ReadRc(r) \/ ReadMain(r)
Spec == Init /\ [][Next]_vars
\* at every moment the contents are those of the accepted updates that were taken, in their order
Contents == View(main, rc, on) = Fold(Empty, done)
=============================================================================
