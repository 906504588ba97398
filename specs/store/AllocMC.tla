------------------------------- MODULE AllocMC -------------------------------
EXTENDS Alloc
MReserve == Bound /\ \E s \in 1..Classes : Reserve(s)
MRelease == \E x \in live : Release(x)
MRestart == Restart
MCollect == Collect
MNext == MReserve \/ MRelease \/ MRestart \/ MCollect
MSpec == AInit /\ [][MNext]_avars
==============================================================================
