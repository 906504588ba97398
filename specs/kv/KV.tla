-------------------------------- MODULE KV --------------------------------
(***************************************************************************)
(* Abstract contract of a mabain database: a map from keys to values, the  *)
(* update operations with their result codes, and every query as a         *)
(* function of the map.  A value is identified by the number of the        *)
(* operation that wrote it, so a stale or foreign value can never be       *)
(* mistaken for the right one.                                             *)
(***************************************************************************)
EXTENDS Keys, Integers, TLC

VARIABLES m,      \* m[k] = 0: absent, else id of the operation that wrote it
          n       \* number of operations so far
vars == <<m, n>>

\* result codes
OK == 0   INDICT == 1   NOTEXIST == 2   TRYAGAIN == 3   OUTOFBOUND == 4
Empty == [k \in Keys |-> 0]
TypeOK == m \in [Keys -> 0..n] /\ n \in Nat
Unique == \A a, b \in Keys : a # b /\ m[a] # 0 => m[a] # m[b]   \* no value under two keys

Init == m = Empty /\ n = 0

(* ------------------------------ updates ------------------------------ *)
AddResult(mm, k, ow) == IF mm[k] # 0 /\ ~ow THEN INDICT ELSE OK
AddEffect(mm, k, ow, v) == IF mm[k] # 0 /\ ~ow THEN mm ELSE [mm EXCEPT ![k] = v]
RemResult(mm, k) == IF mm[k] # 0 THEN OK ELSE NOTEXIST
RemEffect(mm, k) == [mm EXCEPT ![k] = 0]

Add(k, ow)  == n' = n + 1 /\ m' = AddEffect(m, k, ow, n + 1)
Delete(k)   == n' = n + 1 /\ m' = RemEffect(m, k)
RemoveAll   == n' = n + 1 /\ m' = Empty
\* operations that must not change the contents: collection, reopen, backup, rejected calls
Neutral     == n' = n + 1 /\ m' = m

(* ------------------------------ queries ------------------------------ *)
FirstIn(seq, P(_)) == LET S == {i \in 1..Len(seq) : P(seq[i])} IN
                    IF S = {} THEN 0 ELSE seq[CHOOSE i \in S : \A j \in S : i <= j]
MaxLE(mm, b) == LET S == {k \in Keys : k <= b /\ mm[k] # 0} IN
                IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k >= j
Code(mm, k)  == IF k = 0 THEN 0 ELSE k * 1000 + mm[k]     \* "key k with value m[k]"

FindQ(mm, kind, s) == IF kind = 1 THEN mm[s] ELSE 0
\* longest present prefix; a query of kind 3 only has the proper prefixes of s
LpmQ(mm, kind, s) ==
    LET ps == IF kind = 3 THEN Tail(PrefixesOf[s]) ELSE PrefixesOf[s]
    IN Code(mm, FirstIn(ps, LAMBDA k : mm[k] # 0))
LbQ(mm, kind, s) ==
    Code(mm, MaxLE(mm, CASE kind = 1 -> s [] kind = 2 -> s [] kind = 3 -> s - 1 [] kind = 4 -> LastExt(s)))
CountQ(mm) == Cardinality({k \in Keys : mm[k] # 0})
IterQ(mm)  == SelectSeq([k \in Keys |-> Code(mm, k)], LAMBDA c : c % 1000 # 0)
\* prefix iteration: kind 1 the keys extending s; kind 2 those extending s strictly; else none
PIterQ(mm, kind, s) ==
    IF kind \in {3, 4} THEN <<>>
    ELSE SelectSeq([i \in 1..Len(ExtsOf[s]) |-> Code(mm, ExtsOf[s][i])],
                   LAMBDA c : c % 1000 # 0 /\ (kind = 1 \/ c \div 1000 # s))

(* ----------------------------- properties ---------------------------- *)
\* laws the query functions obey in every state (checked by TLC, so a slip
\* in the oracle itself is noticed)
QueryLaws ==
    /\ CountQ(m) = Len(IterQ(m))
    /\ \A k \in Keys : /\ (FindQ(m, 1, k) # 0) = (LpmQ(m, 1, k) \div 1000 = k)
                       /\ (FindQ(m, 1, k) # 0) = (LbQ(m, 1, k) \div 1000 = k)
                       /\ \A kd \in Kinds : LpmQ(m, kd, k) \div 1000 <= LbQ(m, kd, k) \div 1000
                       /\ LpmQ(m, 2, k) = LpmQ(m, 1, k) /\ LbQ(m, 3, k) <= LbQ(m, 1, k)
                       /\ Len(PIterQ(m, 1, k)) = Len(PIterQ(m, 2, k)) + (IF m[k] # 0 THEN 1 ELSE 0)

Next == \/ \E k \in Keys, ow \in BOOLEAN : Add(k, ow)
        \/ \E k \in Keys : Delete(k)
        \/ RemoveAll
        \/ Neutral
Spec == Init /\ [][Next]_vars

\* a step touches one key at most, unless it empties the database
OneKey == [][m' = Empty \/ Cardinality({k \in Keys : m[k] # m'[k]}) <= 1]_vars
\* values only ever come from the operation just performed
Fresh  == [][\A k \in Keys : m'[k] \in {m[k], 0, n'}]_vars
===========================================================================
