SPECIFICATION Spec
VIEW View
CONSTANTS Prod = {1, 2, 3}
 Size = 3
 MaxSub = 2
 MaxDeath = 1
 MaxAband = 2
 MaxRestart = 0
INVARIANTS Whole InOrder Complete Bounded NoStall Usable
CHECK_DEADLOCK FALSE
