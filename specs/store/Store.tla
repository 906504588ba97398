-------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* Contents with the age of every entry.  The age of an entry is the       *)
(* number of updates before the one that wrote it; epb updates make a      *)
(* bucket.  Eviction removes whole ages from the oldest on.                *)
(* Key 0 only serves to make updates.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES nk, epb, val, st, n
svars == <<nk, epb, val, st, n>>
Wrap == 65535                      \* buckets that can be told apart
Keys == 0..nk
Fresh(a, b) == nk' = a /\ epb' = b /\ val' = [k \in 0..a |-> 0] /\ st' = [k \in 0..a |-> 0] /\ n' = 0
\* keys k, k + d, ... (c of them)
Idx(k, c, d) == {k + i * d : i \in 0..(c - 1)} \cap (1..nk)
Live == {k \in Keys : val[k] # 0}
Par == UNCHANGED <<nk, epb>>
Adds(k, c, d, ow) == {x \in Idx(k, c, d) : ow = 1 \/ val[x] = 0}
AddMany(k, c, d, v, ow) ==
    LET A == Idx(k, c, d)
        S == IF ow = 1 THEN A ELSE {x \in A : val[x] = 0}
        All == S = A
    IN
    /\ val' = [x \in Keys |-> IF x \in S THEN v + (x - k) \div d ELSE val[x]]
    /\ st' = [x \in Keys |-> IF x \in S THEN n + (IF All THEN (x - k) \div d ELSE Cardinality({y \in S : y < x})) ELSE st[x]]
    /\ n' = n + Cardinality(S) /\ Par
RemoveMany(k, c, d) == LET S == Idx(k, c, d) IN val' = [x \in Keys |-> IF x \in S THEN 0 ELSE val[x]] /\ Par /\ UNCHANGED <<st, n>>
Bump(c) == c > 0 /\ val' = [val EXCEPT ![0] = 1] /\ st' = [st EXCEPT ![0] = n + c - 1] /\ n' = n + c /\ Par
Clear == val' = [k \in Keys |-> 0] /\ n' = 0 /\ Par /\ UNCHANGED st
Bucket(k) == st[k] \div epb
Cur == n \div epb
\* so old that the number of its bucket is in use again
Aliased(k) == Cur - Bucket(k) >= Wrap
\* no survivor is in an older bucket than one that went (aliased buckets aside)
Evictable(R) == LET L == Live
                    G == {Bucket(x) : x \in {y \in R : ~Aliased(y)}}
                    H == {Bucket(x) : x \in {y \in L \ R : ~Aliased(y)}}
                IN /\ R \subseteq L
                   /\ \A b \in G : b < Cur /\ \A e \in H : b <= e
Evict(R) == Evictable(R) /\ val' = [k \in Keys |-> IF k \in R THEN 0 ELSE val[k]] /\ Par /\ UNCHANGED <<st, n>>
==============================================================================
