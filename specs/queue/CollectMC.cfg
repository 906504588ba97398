SPECIFICATION Spec
CONSTANTS NK = 2
 MaxOps = 4
 MaxDeath = 1
 NR = 1
INVARIANT Contents
CHECK_DEADLOCK FALSE
