SPECIFICATION Spec
CONSTANTS NK = 2
 MaxOps = 5
 MaxDeath = 2
 NR = 1
INVARIANT Contents
CHECK_DEADLOCK FALSE
