----------------------------- MODULE StoreTrace -----------------------------
(***************************************************************************)
(* Validation of what the storage driver saw.                              *)
(*  s: contents, count, ends (ti, td) and begins (bi, bd) of the used      *)
(*     index and data storage, pending garbage (pi, pd), the total size of *)
(*     what is reachable (si, sd), and its extents (x, y).                 *)
(*  y: end of a cycle; v: an eviction.                                     *)
(***************************************************************************)
EXTENDS Store, Json, TLC, TLCExt
CONSTANTS TraceFile
Block == 4194304
MaxGap == 32800
VARIABLES l, hw, clean
tvars == <<nk, epb, val, st, n, l, hw, clean>>
Log == ndJsonDeserialize(TraceFile)
Ev == Log[l]
IsEv(t) == l <= Len(Log) /\ Ev.e = t
Step == l' = l + 1
TInit == nk = 1 /\ epb = 1 /\ val = [k \in 0..1 |-> 0] /\ st = [k \in 0..1 |-> 0] /\ n = 0 /\ l = 1 /\ hw = <<0, 0>> /\ clean = FALSE
TReset == IsEv("reset") /\ Fresh(1, 1) /\ Step /\ hw' = <<0, 0>> /\ clean' = FALSE
THead == IsEv("h") /\ Fresh(Ev.nk, Ev.epb) /\ Step /\ UNCHANGED <<hw, clean>>
Dirty == Step /\ clean' = FALSE /\ UNCHANGED hw
TAdd == IsEv("a") /\ AddMany(Ev.k, Ev.n, Ev.st, Ev.v, Ev.ow) /\ Dirty
        /\ (Ev.bad = 0 /\ Ev.ok = Cardinality(Adds(Ev.k, Ev.n, Ev.st, Ev.ow))) = TRUE
TRemove == IsEv("r") /\ RemoveMany(Ev.k, Ev.n, Ev.st) /\ Dirty
        /\ (Ev.bad = 0 /\ Ev.ok = Cardinality(Idx(Ev.k, Ev.n, Ev.st) \cap Live)) = TRUE
TBump == IsEv("b") /\ Ev.ok = Ev.n /\ Bump(Ev.n) /\ Dirty
TClear == IsEv("A") /\ Ev.r = 0 /\ Clear /\ Dirty
TOpen == IsEv("o") /\ Ev.ok = 1 /\ UNCHANGED svars /\ Step /\ UNCHANGED <<hw, clean>>
TCollect == IsEv("c") /\ Ev.r \in {0, 22} /\ UNCHANGED svars /\ Step /\ clean' = TRUE /\ UNCHANGED hw
\* what must be visible
Shows(f, m) == \A k \in 1..nk : f[k] = m[k]
\* storage that is in use twice, or outside of the used part
Apart(X, b, e) == /\ \A i \in 1..(Len(X) - 1) : X[i][1] + X[i][2] <= X[i + 1][1]
                  /\ Len(X) > 0 => X[1][1] >= b /\ X[Len(X)][1] + X[Len(X)][2] <= e
RECURSIVE Sum(_, _)
Sum(X, i) == IF i > Len(X) THEN 0 ELSE X[i][2] + Sum(X, i + 1)
Stored == /\ Ev.cnt = Cardinality(Live) /\ Ev.nd = Cardinality(Live)
          /\ Ev.pi >= 0 /\ Ev.pd >= 0
          \* nothing is lost, nothing is counted twice; a collection may leave gaps at the ends of blocks
          /\ Ev.ti - (Ev.bi + Ev.si + Ev.pi) \in 0..((Ev.ti \div Block) * MaxGap)
          /\ Ev.td - (Ev.bd + Ev.sd + Ev.pd) \in 0..((Ev.td \div Block) * MaxGap)
          /\ clean => Ev.pi = 0 /\ Ev.pd = 0
          /\ Ev.full = 1 => Apart(Ev.x, Ev.bi, Ev.ti) /\ Apart(Ev.y, Ev.bd, Ev.td) /\ Len(Ev.y) = Ev.nd
TShow == IsEv("s") /\ (Shows(Ev.f, val) /\ Stored) = TRUE /\ UNCHANGED svars /\ Step /\ UNCHANGED <<hw, clean>>
\* a cycle that returns to the same contents comes to use no more storage than before
TCycle == /\ IsEv("y") /\ UNCHANGED svars /\ Step /\ UNCHANGED clean
          /\ hw' = IF 2 * Ev.i <= Ev.n \/ Ev.b = 0 THEN <<Ev.ti, Ev.td>> ELSE hw
          /\ (Ev.b = 1 /\ 2 * Ev.i > Ev.n => Ev.ti <= hw[1] /\ Ev.td <= hw[2]) = TRUE
\* the limit is exceeded by far and the oldest entries are in the part that goes first
Oldest == CHOOSE b \in {Bucket(k) : k \in Live} : \A k \in Live : b <= Bucket(k)
MustEvict == /\ Ev.half = 1 /\ Live # {} /\ Cur < Wrap - 10 /\ Cur - Ev.ei >= 4
             /\ Ev.ei <= Oldest /\ 2 * (Oldest - Ev.ei) + 2 < Cur - Ev.ei
TEvict == IsEv("v") /\ Ev.r \in {0, 22} /\ Step /\ clean' = (Ev.g = 1) /\ UNCHANGED hw
          /\ LET R == {k \in Live : IF k = 0 THEN Ev.zero = 1 ELSE Ev.f[k] = 0} IN
             /\ Evict(R)
             /\ (Shows(Ev.f, [k \in Keys |-> IF k \in R THEN 0 ELSE val[k]])) = TRUE
             /\ (Ev.cnt = Cardinality(Live \ R)) = TRUE
             /\ (Ev.ex = 0 => R = {}) = TRUE
             /\ (MustEvict => R # {}) = TRUE
TNext == TReset \/ THead \/ TAdd \/ TRemove \/ TBump \/ TClear \/ TOpen \/ TCollect \/ TShow \/ TCycle \/ TEvict
Mark == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
MarkInit == TInit /\ TLCSet(1, 1)
VSpec == MarkInit /\ [][TNext]_tvars
Accepted == PrintT(<<"@D", TLCGet(1) - 1, Len(Log)>>)
=============================================================================
