-------------------------------- MODULE Alloc --------------------------------
(***************************************************************************)
(* How one kind of storage is handed out: a used part that ends at tail,   *)
(* free lists by size class that hold a limited number of buffers, a       *)
(* buffer that does not fit goes to the list of a smaller class (the rest  *)
(* of it is garbage until the next collection) or is garbage altogether.   *)
(* The lists do not survive a restart.                                     *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Classes,      \* sizes 1..Classes
          Cap,          \* more than Cap buffers of one size are not kept
          Block,        \* no buffer crosses a multiple of Block
          MaxTail
VARIABLES live,         \* set of <<offset, size>>
          free,         \* class -> sequence of offsets
          tail, pend
avars == <<live, free, tail, pend>>
AInit == live = {} /\ free = [c \in 1..Classes |-> <<>>] /\ tail = 0 /\ pend = 0
RECURSIVE Spill(_, _)
\* the class that takes a buffer of class c whose own list is full: the next smaller one with room, 0 none
Spill(f, c) == IF c <= 1 THEN 0 ELSE IF Len(f[c - 1]) <= Cap THEN c - 1 ELSE Spill(f, c - 1)
Put(f, o, c) == IF Len(f[c]) <= Cap THEN [f EXCEPT ![c] = Append(@, o)]
                ELSE LET d == Spill(f, c) IN IF d = 0 THEN f ELSE [f EXCEPT ![d] = Append(@, o)]
Reserve(s) == IF free[s] # <<>>
              THEN /\ live' = live \cup {<<Head(free[s]), s>>}
                   /\ free' = [free EXCEPT ![s] = Tail(@)]
                   /\ pend' = pend - s /\ UNCHANGED tail
              ELSE LET r == tail % Block
                       o == IF r + s > Block THEN tail - r + Block ELSE tail IN
                   /\ live' = live \cup {<<o, s>>}
                   /\ tail' = o + s
                   /\ pend' = pend + (o - tail)
                   /\ free' = IF o > tail /\ o - tail <= Classes THEN Put(free, tail, o - tail) ELSE free
Release(x) == /\ x \in live /\ live' = live \ {x} /\ pend' = pend + x[2] /\ free' = Put(free, x[1], x[2]) /\ UNCHANGED tail
Restart == free' = [c \in 1..Classes |-> <<>>] /\ UNCHANGED <<live, tail, pend>>
RECURSIVE Pack(_, _)
Pack(S, o) == IF S = {} THEN <<{}, o>>
              ELSE LET x == CHOOSE y \in S : \A z \in S : y[1] <= z[1]
                       r == o % Block
                       p == IF r + x[2] > Block THEN o - r + Block ELSE o
                       q == Pack(S \ {x}, p + x[2]) IN <<{<<p, x[2]>>} \cup q[1], q[2]>>
Collect == LET p == Pack(live, 0) IN live' = p[1] /\ tail' = p[2] /\ pend' = 0 /\ free' = [c \in 1..Classes |-> <<>>]
Bound == tail <= MaxTail
ANext == (Bound /\ \E s \in 1..Classes : Reserve(s)) \/ (\E x \in live : Release(x)) \/ Restart \/ Collect
ASpec == AInit /\ [][ANext]_avars
Extents == live \cup UNION {{<<free[c][i], c>> : i \in DOMAIN free[c]} : c \in 1..Classes}
Cells(x) == x[1]..(x[1] + x[2] - 1)
\* no two buffers, live or free, share a cell
Apart == /\ \A x, y \in Extents : x # y => Cells(x) \cap Cells(y) = {}
         /\ \A c \in 1..Classes : \A i, j \in DOMAIN free[c] : i # j => free[c][i] # free[c][j]
Inside == \A x \in Extents : x[1] + x[2] <= tail
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x[2] + Total(S \ {x})
Account == pend >= 0 /\ pend >= Total(Extents \ live)
Crossing == \A x \in live : x[1] \div Block = (x[1] + x[2] - 1) \div Block
\* a collection may leave gaps at block ends
Identity == tail >= Total(live) + pend
Exact == Block > MaxTail => tail = Total(live) + pend
==============================================================================
