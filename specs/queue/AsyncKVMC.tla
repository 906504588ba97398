----------------------------- MODULE AsyncKVMC -----------------------------
(***************************************************************************)
(* What AsyncKV guarantees to its users: every key only one submitter      *)
(* touches has, once the writer has drained, exactly the value that        *)
(* submitter's accepted updates give it when run alone in their order; a   *)
(* key several submitters touch has the value of the last update of one of *)
(* them.                                                                   *)
(***************************************************************************)
EXTENDS AsyncKV
CONSTANTS MaxOps
VARIABLES acc
mvars == <<kv, q, bal, acc>>
RECURSIVE Fold(_, _)
Fold(m, s) == IF s = <<>> THEN m ELSE Fold(Effect(m, Head(s)), Tail(s))
Zero == [k \in AKeys |-> 0]
Owner(k) == IF k <= NP THEN {k} ELSE Prods      \* key p is private to submitter p, the others are shared
MInit == AInit /\ acc = [p \in Prods |-> <<>>]
Id(p) == 10 * p + Len(acc[p]) + 1
MSubmit == \E p \in Prods, k \in AKeys, w \in {"a0", "a1", "r", "R"} :
             /\ Len(acc[p]) < MaxOps /\ p \in Owner(k)
             /\ LET o == CASE w = "a0" -> Upd("a", k, Id(p), 0) [] w = "a1" -> Upd("a", k, Id(p), 1) [] w = "r" -> Upd("r", k, Id(p), 0) [] OTHER -> Upd("R", k, Id(p), 0)
                IN Submit(p, o) /\ acc' = [acc EXCEPT ![p] = Append(@, o)]
MApply == \E p \in Prods : Apply(p) /\ UNCHANGED acc
MNext == MSubmit \/ MApply
MSpec == MInit /\ [][MNext]_mvars
Private == \A p \in Prods : LET d == Len(acc[p]) - Len(q[p]) IN kv[p] = Fold(Zero, SubSeq(acc[p], 1, d))[p]
InFlight == \A p \in Prods : q[p] = SubSeq(acc[p], Len(acc[p]) - Len(q[p]) + 1, Len(acc[p]))
Shared == \A k \in AKeys : kv[k] = 0 \/ \E p \in Prods : \E i \in 1..Len(acc[p]) - Len(q[p]) : acc[p][i].id = kv[k] /\ acc[p][i].k = k /\ acc[p][i].op = "a"
\* a drained shared key is one submitter's last word on it, unless an Add without overwrite found it taken
Last == Drained => \A k \in AKeys : (\E p \in Prods : \E i \in DOMAIN acc[p] : acc[p][i].k = k /\ acc[p][i].op = "a" /\ acc[p][i].ow = 1 /\ \A j \in i+1..Len(acc[p]) : acc[p][j].k # k \/ acc[p][j].op = "R")
          /\ (\A p \in Prods : \A i \in DOMAIN acc[p] : acc[p][i].k = k => acc[p][i].op # "r") => kv[k] # 0
=============================================================================
