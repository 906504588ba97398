------------------------------- MODULE StoreMC -------------------------------
(* All behaviours of Store with few keys: repeated eviction by the rule of the implementation *)
(* (the part of the ages that goes first, then the next) only ever removes the oldest entries. *)
EXTENDS Store, TLC
CONSTANTS MaxN
VARIABLES ei
mvars == <<nk, epb, val, st, n, ei>>
MInit == nk = 3 /\ epb = 2 /\ val = [k \in 0..3 |-> 0] /\ st = [k \in 0..3 |-> 0] /\ n = 0 /\ ei = 0
MAdd == n < MaxN /\ \E k \in 1..3, ow \in 0..1 : AddMany(k, 1, 1, 1, ow) /\ UNCHANGED ei
MRemove == \E k \in 1..3 : RemoveMany(k, 1, 1) /\ UNCHANGED ei
MBump == n < MaxN /\ Bump(1) /\ UNCHANGED ei
MClear == Clear /\ ei' = 0
\* one pass: the buckets from ei on, up to a part of those there are
Pass == \E d \in 0..((Cur - ei) \div 2) : LET R == {k \in Live : Bucket(k) >= ei /\ Bucket(k) < ei + d} IN Evict(R) /\ ei' = ei + d
MNext == MAdd \/ MRemove \/ MBump \/ MClear \/ Pass
MSpec == MInit /\ [][MNext]_mvars
\* a pass is never refused, and what is left is not older than where the next pass begins
PassAllowed == \A d \in 0..((Cur - ei) \div 2) : Evictable({k \in Live : Bucket(k) >= ei /\ Bucket(k) < ei + d})
NothingBefore == \A k \in Live : Bucket(k) >= ei
Ages == \A k \in Live : st[k] < n
==============================================================================
