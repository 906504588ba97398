SPECIFICATION MSpec
CONSTANTS NK = 1
 NH = 3
 NP = 2
 Cfgs0 = {0, 2}
 MaxGen = 1
 MaxQ = 1
 MaxV = 1
CONSTRAINT Bound
INVARIANT OneOwner
INVARIANT Settled
INVARIANT NoneEmpty
PROPERTY Harmless
PROPERTY ByOwner
PROPERTY Others
CHECK_DEADLOCK FALSE
