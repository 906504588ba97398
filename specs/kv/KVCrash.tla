------------------------------- MODULE KVCrash -------------------------------
(***************************************************************************)
(* KV with crashes.  A crash inside an operation leaves a set of possible  *)
(* contents; readers that open the files before the next writer does may   *)
(* see any of them, key by key; the next writer settles on one, and from   *)
(* there on everything is KV again.  Validates recorded executions in      *)
(* which the files were rebuilt as they were after k stores of the         *)
(* interrupted operation.                                                  *)
(***************************************************************************)
EXTENDS KVTrace
VARIABLES cand,    \* contents the interrupted operation may leave; {} when none is open
          clear    \* the interrupted operation is a clear-all: each key is old or absent
cvars == <<m, n, l, cand, clear>>

CrashCand(e) == CASE e.op = "a" -> {m, AddEffect(m, e.k, e.ow = 1, n + 1)}
                  [] e.op = "r" -> {m, RemEffect(m, e.k)}
                  [] OTHER      -> {m}
\* what one reader's lookups may answer while the operation is neither done nor undone
ROok(o) ==
    /\ ~Has(o, "dead") /\ ~Has(o, "lost")
    /\ Has(o, "f") => \A s \in Keys : IF clear THEN o.f[s] \in {0, m[s]} ELSE \E c \in cand : o.f[s] = FindQ(c, 1, s)
    /\ Has(o, "fb") => o.fb = <<>>
    /\ Has(o, "l") => \A j \in 1..4 * NK : \/ o.l[j] = SKIP \/ clear
                                           \/ \E c \in cand : o.l[j] = LpmQ(c, Kd(j), Sx(j))
CInit == TInit /\ cand = {} /\ clear = FALSE
CReset == TReset /\ cand' = {} /\ clear' = FALSE
CCrash == /\ IsEv("crash") /\ cand = {} /\ ~clear /\ n' = n + 1 /\ m' = m
          /\ Ev.v = n + 1
          /\ cand' = CrashCand(Ev) /\ clear' = (Ev.op = "A")
CRo    == IsEv("ro") /\ (cand # {} \/ clear) /\ (\A j \in 1..Len(Ev.o) : ROok(Ev.o[j])) = TRUE /\ UNCHANGED <<m, n, cand, clear>>
\* the recovering writer dies, too
CAgain == IsEv("again") /\ UNCHANGED <<m, n, cand, clear>>
CRecover == /\ IsEv("recover")
            /\ IF clear
               THEN m' = [k \in Keys |-> IF Ev.o[1].f[k] = m[k] THEN m[k] ELSE 0]
               ELSE m' \in cand
            /\ (\A j \in 1..Len(Ev.o) : ObsOK(Ev.o[j], m')) = TRUE
            /\ cand' = {} /\ clear' = FALSE /\ UNCHANGED n
CNext == \/ CReset \/ CCrash \/ CRo \/ CAgain \/ CRecover
         \/ (cand = {} /\ ~clear /\ (TAdd \/ TDelete \/ TClear \/ TNeutral) /\ UNCHANGED <<cand, clear>>)
CSpec == CInit /\ [][CNext]_cvars
==============================================================================
