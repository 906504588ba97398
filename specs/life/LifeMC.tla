------------------------------- MODULE LifeMC -------------------------------
(***************************************************************************)
(* What Life guarantees: one owner at most, contents change only by the    *)
(* owner or by a writer that opens, and a refused or read-only open, an    *)
(* interrupted read-only open, and the death of somebody else change       *)
(* nothing.                                                                *)
(***************************************************************************)
EXTENDS Life
CONSTANTS Cfgs0, MaxGen, MaxQ, MaxV
VARIABLES act, nv
mvars == <<D, H, act, nv>>
MInit == LInit /\ act = "init" /\ nv = 0
Us == {Upd("a", k, nv + 1, ow) : k \in Keys, ow \in 0..1} \cup {Upd("r", k, 0, 0) : k \in Keys} \cup {Upd("x", 0, 0, 0)}
A(s) == act' = s /\ UNCHANGED nv
MOpen == \E h \in Handles, d \in Dirs, c \in Cfgs0 :
           \/ \E m \in {"w", "a"} : OpenWriter(h, d, m, c) /\ A("openw")
           \/ RefuseWriter(h, d, c) /\ A("refuse")
           \/ OpenReader(h, d, c) /\ A("openr")
           \/ RefuseReader(h, d, c) /\ A("refuse")
           \/ \E m \in {"w", "a", "r"} : CanOpen(h) /\ (\E X \in TornOpen(d, m, c) : Die(ProcOf(h), X)) /\ A(IF m = "r" THEN "dier" ELSE "die")
MUpd == \E h \in Handles, u \in Us : Live(h) /\ (Update(h, u) \/ (Len(D[H[h].d].q) < MaxQ /\ Submit(h, u))) /\ nv < MaxV /\ act' = "upd" /\ nv' = nv + 1
MTorn == \E h \in Handles, u \in Us : Live(h) /\ nv < MaxV /\ (\E X \in TornUpdate(h, u) : Die(ProcOf(h), X)) /\ act' = "die" /\ nv' = nv + 1
MApply == \E d \in Dirs : Apply(d) /\ A("apply")
MClose == \E h \in Handles : Close(h) /\ A("close")
MCopy == \E h \in Handles, d2 \in Dirs : Live(h) /\ Copy(h, d2) /\ A("copy")
MTornCopy == \E h \in Handles, d2 \in Dirs : Live(h) /\ d2 # H[h].d /\ (\E X \in TornCopy(h, d2) : Die(ProcOf(h), X)) /\ A("die")
MDam == \E d \in Dirs, k \in {1, 3} : Damage(d, k) /\ A("damage")
MNext == MOpen \/ MUpd \/ MTorn \/ MApply \/ MClose \/ MCopy \/ MTornCopy \/ MDam
MSpec == MInit /\ [][MNext]_mvars
Bound == \A d \in Dirs : D[d].gen <= MaxGen
OneOwner == \A d \in Dirs : D[d].owner # 0 => /\ H[D[d].owner].st \in {"w", "a"} /\ H[D[d].owner].d = d /\ ~Stale(D[d].owner) /\ D[d].file = "ok"
                            /\ \A h \in Handles : Live(h) /\ H[h].d = d /\ H[h].st \in {"w", "a"} => h = D[d].owner
Settled == \A d \in Dirs : D[d].owner # 0 => D[d].alt = {}
NoneEmpty == \A d \in Dirs : D[d].file # "ok" => D[d].kv = Empty /\ D[d].q = <<>> /\ D[d].owner = 0
Data(x) == <<x.file, x.base, x.kv, x.alt, x.q, x.gen>>
Harmless == [][act' \in {"refuse", "openr", "dier"} => \A d \in Dirs :
                 Data(D[d]) = Data(D'[d]) \/ (act' = "dier" /\ D[d].owner # 0 /\ D'[d].owner = 0)]_mvars
ByOwner == [][\A d \in Dirs : D[d].kv # D'[d].kv => (act' \in {"openw", "damage", "die", "copy"} \/ D[d].owner # 0)]_mvars
Others == [][\A d \in Dirs : (act' = "upd" /\ D[d].kv # D'[d].kv) => H[D[d].owner].st = "w"]_mvars
=============================================================================
