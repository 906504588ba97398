------------------------------ MODULE AsyncKV ------------------------------
(***************************************************************************)
(* Updates submitted by several submitters to one async writer.  An        *)
(* accepted update waits in its submitter's FIFO; the writer takes the     *)
(* heads in any order.  The queue (ShmQueue) refines the FIFOs.  A request *)
(* for resource collection takes a place in the queue but changes nothing. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NP, NK
VARIABLES kv,   \* contents: 0 or the id of the update that set the value
          q,    \* what each submitter has in flight
          bal   \* the entries nobody updates are there (they go with a remove-all)
avars == <<kv, q, bal>>
Prods == 1..NP
AKeys == 1..NK
Upd(op, k, id, ow) == [op |-> op, k |-> k, id |-> id, ow |-> ow]
Effect(m, o) == CASE o.op = "a" -> (IF o.ow = 1 \/ m[o.k] = 0 THEN [m EXCEPT ![o.k] = o.id] ELSE m)
                  [] o.op = "r" -> [m EXCEPT ![o.k] = 0]
                  [] o.op = "x" -> [k \in AKeys |-> 0]
                  [] OTHER -> m
AInit == kv = [k \in AKeys |-> 0] /\ q = [p \in Prods |-> <<>>] /\ bal = 1
Submit(p, o) == q' = [q EXCEPT ![p] = Append(@, o)] /\ UNCHANGED <<kv, bal>>
Apply(p) == /\ q[p] # <<>>
            /\ kv' = Effect(kv, Head(q[p])) /\ bal' = (IF Head(q[p]).op = "x" THEN 0 ELSE bal)
            /\ q' = [q EXCEPT ![p] = Tail(@)]
Drained == \A p \in Prods : q[p] = <<>>
=============================================================================
