------------------------------- MODULE KVRead -------------------------------
(***************************************************************************)
(* KV with concurrent lookups.  A lookup overlaps the updates lo+1..hi     *)
(* (all before are complete when it starts, none after has begun when it   *)
(* ends) and must answer what KV answers in one of the states ms[lo..hi].  *)
(* If no update made a step during the lookup (mv = 0: the writer stands   *)
(* still, for ever maybe) it must answer; otherwise it may give up with    *)
(* try-again.                                                              *)
(***************************************************************************)
EXTENDS KVTrace
VARIABLE ms    \* contents after each operation, ms[1] before the first
rvars == <<m, n, l, ms>>
TRY == 0 - 3
At(i) == ms[i + 1]
LookOK(e) == \/ e.v = TRY /\ e.mv = 1
             \/ \E i \in e.lo..e.hi : e.v = (IF e.t = 0 THEN FindQ(At(i), e.kd, e.s) ELSE LpmQ(At(i), e.kd, e.s))
             \/ e.v = SKIP
RInit == TInit /\ ms = <<Empty>>
RReset == TReset /\ ms' = <<Empty>>
RUpd == (TAdd \/ TDelete \/ TClear \/ TNeutral) /\ ms' = Append(ms, m')
RLook == IsEv("look") /\ Ev.hi <= n /\ LookOK(Ev) = TRUE /\ UNCHANGED <<m, n, ms>>
RNext == RReset \/ RUpd \/ RLook
RSpec == RInit /\ [][RNext]_rvars
==============================================================================
