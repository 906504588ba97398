-------------------------------- MODULE Life --------------------------------
(***************************************************************************)
(* Databases over their life: directories whose files are created, found   *)
(* again, damaged, deleted, copied and re-initialised; handles (readers,   *)
(* writers, asynchronous writers) that several processes open and close;   *)
(* and the death of a process at any point.                                *)
(*                                                                         *)
(* A directory holds (file) no database, one that cannot be used, or one   *)
(* with contents kv, the sizes it was created with, a queue of updates     *)
(* submitted by readers, at most one owner (the writer).  alt # {} when    *)
(* the owner died inside an operation: the contents its interruption may   *)
(* have left; readers may see any of them, the next writer settles on one. *)
(* torn: a writer died while it was emptying the database; readers may miss *)
(* entries, the next writer finds everything or nothing.                   *)
(* gen counts re-initialisations: a handle of an earlier generation is     *)
(* stale and only good for closing.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NK, NH, NP
Dirs == 1..2
Keys == 1..NK
Handles == 1..NH
Procs == 1..NP
ProcOf(h) == IF h = 7 THEN 4 ELSE (h - 1) \div 2 + 1

(* configurations: index block, data block, queue size, jemalloc, keep, valid for a writer, for a reader *)
C(ib, db, qs, j, k, w, r) == [ib |-> ib, db |-> db, qs |-> qs, jem |-> j, keep |-> k, wok |-> w, rok |-> r]
CfgTab == << C(4, 4, 8, FALSE, FALSE, TRUE, TRUE),     \* 0 standard
             C(4, 8, 8, FALSE, FALSE, TRUE, TRUE),     \* 1 other data block size
             C(4, 1, 8, FALSE, FALSE, FALSE, FALSE),   \* 2 block size no multiple of 4 MB
             C(4, 4, 8, FALSE, FALSE, FALSE, TRUE),    \* 3 too few entries per bucket
             C(4, 4, 8, TRUE, FALSE, TRUE, TRUE),      \* 4 jemalloc
             C(4, 4, 8, FALSE, FALSE, TRUE, TRUE),     \* 5 prefix cache
             C(4, 4, 8, TRUE, TRUE, TRUE, TRUE),       \* 6 jemalloc, keep the database
             C(4, 4, 4, FALSE, FALSE, TRUE, TRUE),    \* 7 other queue size
             C(8, 4, 8, FALSE, FALSE, TRUE, TRUE),     \* 8 other index block size
             C(4, 4, 8, TRUE, FALSE, FALSE, TRUE),     \* 9 jemalloc with a memory cap that does not fit
             C(0, 0, 8, FALSE, FALSE, FALSE, TRUE) >>  \* 10 sizes left open (readers only)
Cfg(c) == CfgTab[c + 1]
Cfgs == 0..10
WMatch(b, c) == Cfg(b).ib = Cfg(c).ib /\ Cfg(b).db = Cfg(c).db /\ Cfg(b).qs = Cfg(c).qs /\ Cfg(b).jem = Cfg(c).jem
RMatch(b, c) == Cfg(c).ib \in {0, Cfg(b).ib} /\ Cfg(c).db \in {0, Cfg(b).db} /\ Cfg(b).qs = Cfg(c).qs

Empty == [k \in Keys |-> 0]
Upd(op, k, v, ow) == [op |-> op, k |-> k, v |-> v, ow |-> ow]
Effect(m, u) == CASE u.op = "a" /\ (u.ow = 1 \/ m[u.k] = 0) -> [m EXCEPT ![u.k] = u.v]
                  [] u.op = "r" -> [m EXCEPT ![u.k] = 0]
                  [] u.op = "x" -> Empty
                  [] OTHER -> m
Subs(m) == {[k \in Keys |-> IF k \in S THEN m[k] ELSE 0] : S \in SUBSET Keys}
\* what an interrupted update may leave
Torn(m, u) == IF u.op = "x" THEN Subs(m) ELSE {m, Effect(m, u)}

VARIABLES D, H
lvars == <<D, H>>
NoDB == [file |-> "none", base |-> 0, kv |-> Empty, alt |-> {}, q |-> <<>>, owner |-> 0, gen |-> 0, cnt |-> TRUE, torn |-> FALSE]
Closed == [st |-> "closed", d |-> 0, gen |-> 0]
LInit == D = [d \in Dirs |-> NoDB] /\ H = [h \in Handles |-> Closed]

Cands(x) == IF x.alt = {} THEN {x.kv} ELSE x.alt
Live(h) == H[h].st \in {"w", "a", "r"}
Stale(h) == Live(h) /\ H[h].gen # D[H[h].d].gen
Good(h) == Live(h) /\ ~Stale(h)
Fresh(x, c) == [x EXCEPT !.file = "ok", !.base = c, !.kv = Empty, !.alt = {}, !.q = <<>>, !.gen = @ + 1, !.cnt = TRUE, !.torn = FALSE]
Keeps(x, c) == x.file = "ok" /\ WMatch(x.base, c)
\* the possible states of directory x once a writer has opened it
WOpened(x, c) == IF ~Keeps(x, c) THEN {Fresh(x, c)}
                 ELSE IF Cfg(c).jem /\ ~Cfg(c).keep THEN {[x EXCEPT !.kv = Empty, !.alt = {}, !.cnt = TRUE, !.torn = FALSE]}
                 ELSE {[x EXCEPT !.kv = m, !.alt = {}, !.torn = FALSE] : m \in Cands(x) \cup (IF Cfg(c).jem /\ x.alt # {} THEN {Empty} ELSE {})}

(* a handle that does not open leaves everything as it is *)
Refuse(h) == D' = D /\ H' = [H EXCEPT ![h] = [st |-> "failed", d |-> 0, gen |-> 0]]
CanOpen(h) == H[h].st = "closed"
WriterRefused(d, c) == d \notin Dirs \/ ~Cfg(c).wok \/ D[d].owner # 0
OpenWriter(h, d, m, c) == /\ CanOpen(h) /\ ~WriterRefused(d, c)
                          /\ \E y \in WOpened(D[d], c) : /\ D' = [D EXCEPT ![d] = [y EXCEPT !.owner = h]]
                                                         /\ H' = [H EXCEPT ![h] = [st |-> m, d |-> d, gen |-> y.gen]]
RefuseWriter(h, d, c) == CanOpen(h) /\ (WriterRefused(d, c) = TRUE) /\ Refuse(h)
ReaderOK(d, c) == d \in Dirs /\ Cfg(c).rok /\ D[d].file = "ok" /\ RMatch(D[d].base, c)
OpenReader(h, d, c) == CanOpen(h) /\ ReaderOK(d, c) /\ D' = D /\ H' = [H EXCEPT ![h] = [st |-> "r", d |-> d, gen |-> D[d].gen]]
RefuseReader(h, d, c) == CanOpen(h) /\ (ReaderOK(d, c) = FALSE) /\ Refuse(h)

Release(X, h) == [d \in Dirs |-> IF X[d].owner = h THEN [X[d] EXCEPT !.owner = 0] ELSE X[d]]
Close(h) == H[h].st # "closed" /\ D' = Release(D, h) /\ H' = [H EXCEPT ![h] = Closed]

(* updates *)
Update(h, u) == Good(h) /\ H[h].st = "w" /\ H' = H /\ D' = [D EXCEPT ![H[h].d].kv = Effect(@, u)]
Submit(h, u) == Good(h) /\ H[h].st \in {"a", "r"} /\ H' = H /\ D' = [D EXCEPT ![H[h].d].q = Append(@, u)]
Full(h) == Good(h) /\ H[h].st \in {"a", "r"} /\ LET x == D[H[h].d] IN Len(x.q) >= Cfg(x.base).qs - 1
Apply(d) == /\ D[d].owner # 0 /\ H[D[d].owner].st = "a" /\ D[d].q # <<>> /\ H' = H
            /\ D' = [D EXCEPT ![d] = [@ EXCEPT !.kv = Effect(@, Head(D[d].q)), !.q = Tail(@)]]
Sees(h, k, v) == Good(h) /\ H[h].st # "a" /\ LET x == D[H[h].d] IN \E m \in Cands(x) : m[k] = v \/ (x.torn /\ v = 0)
Counts(h, n) == LET x == D[H[h].d] IN ~x.cnt \/ (x.owner # 0 /\ H[x.owner].st = "a") \/ n = Cardinality({k \in Keys : x.kv[k] # 0})

(* a copy made by the writer *)
CanCopy(h, d2) == Good(h) /\ H[h].st = "w" /\ d2 # H[h].d /\ D[d2].file = "none"
Copied(h, d2) == LET x == D[H[h].d] IN [D[d2] EXCEPT !.file = "ok", !.base = x.base, !.kv = x.kv, !.alt = {}, !.q = <<>>, !.gen = @ + 1, !.cnt = x.cnt]
Copy(h, d2) == CanCopy(h, d2) /\ H' = H /\ D' = [D EXCEPT ![d2] = Copied(h, d2)]

(* somebody damages or removes files nobody uses *)
Users(d) == {h \in Handles : H[h].st # "closed" /\ H[h].d = d}
Damage(d, k) == /\ Users(d) = {} /\ D[d].file # "none" /\ H' = H
                /\ D' = [D EXCEPT ![d] = [NoDB EXCEPT !.file = IF k <= 2 THEN "bad" ELSE "none", !.gen = D[d].gen + 1]]

(* process p dies; X is what the interrupted operation has made of the directories *)
Gone(X, h) == LET d == H[h].d IN
              IF ~Live(h) \/ X[d].owner # h THEN X
              ELSE [X EXCEPT ![d] = [@ EXCEPT !.owner = 0, !.cnt = FALSE,
                     !.alt = IF @ # {} THEN @ ELSE IF H[h].st = "a" /\ X[d].q # <<>> THEN Torn(X[d].kv, Head(X[d].q)) ELSE {}]]
RECURSIVE GoneAll(_, _)
GoneAll(X, S) == IF S = {} THEN X ELSE LET h == CHOOSE h \in S : TRUE IN GoneAll(Gone(X, h), S \ {h})
HsOf(p) == {h \in Handles : ProcOf(h) = p}
Die(p, X) == D' = GoneAll(X, HsOf(p)) /\ H' = [h \in Handles |-> IF ProcOf(h) = p THEN Closed ELSE H[h]]

\* directories after an interrupted operation
TornOpen(d, m, c) ==
    IF m = "r" \/ WriterRefused(d, c) THEN {D}
    ELSE LET x == D[d] IN
    {D} \cup {[D EXCEPT ![d] = [y EXCEPT !.cnt = FALSE]] : y \in
        IF ~Keeps(x, c) THEN {[Fresh(x, c) EXCEPT !.file = f] : f \in {"none", "bad", "ok"}}
        ELSE IF Cfg(c).jem THEN {[x EXCEPT !.alt = Cands(x) \cup {Empty}, !.torn = ~Cfg(c).keep \/ x.alt # {}]}
        ELSE IF m = "a" /\ x.q # <<>> THEN {[x EXCEPT !.alt = Cands(x) \cup {Effect(m2, Head(x.q)) : m2 \in Cands(x)}]}
        ELSE {[x EXCEPT !.alt = Cands(x)]}}
TornUpdate(h, u) == IF Good(h) /\ H[h].st = "w" THEN {[D EXCEPT ![H[h].d].alt = Torn(D[H[h].d].kv, u)]} ELSE {D}
TornCopy(h, d2) == IF CanCopy(h, d2) THEN {D} \cup {[D EXCEPT ![d2] = [Copied(h, d2) EXCEPT !.file = f, !.cnt = FALSE, !.kv = IF f = "ok" THEN @ ELSE Empty]] : f \in {"none", "bad", "ok"}} ELSE {D}
=============================================================================
