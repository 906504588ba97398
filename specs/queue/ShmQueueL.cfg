SPECIFICATION Spec
VIEW View
CONSTANTS Prod = {1, 2}
 Size = 2
 MaxSub = 3
 MaxDeath = 1
 MaxAband = 2
 MaxRestart = 1
INVARIANTS Whole InOrder Complete Bounded NoStall Usable
CHECK_DEADLOCK FALSE
