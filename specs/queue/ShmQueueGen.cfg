SPECIFICATION GSpec
CONSTANTS Prod = {1, 2, 3}
 Size = 2
 MaxSub = 6
 MaxDeath = 1
 MaxAband = 3
 MaxRestart = 1
 Depth = 120
INVARIANT Emit
CHECK_DEADLOCK FALSE
