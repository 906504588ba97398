SPECIFICATION MSpec
CONSTANTS NK = 1
 NH = 3
 NP = 2
 Cfgs0 = {0, 2}
 MaxGen = 2
 MaxQ = 1
 MaxV = 1
CONSTRAINT Bound
INVARIANT OneOwner
INVARIANT Settled
INVARIANT NoneEmpty
PROPERTY Harmless
PROPERTY ByOwner
PROPERTY Others
CHECK_DEADLOCK FALSE
