SPECIFICATION Spec
VIEW View
CONSTANTS Prod = {1, 2}
 Size = 2
 MaxSub = 2
 MaxDeath = 1
 MaxAband = 1
 MaxRestart = 1
INVARIANTS Whole InOrder Complete Bounded NoStall Usable
CHECK_DEADLOCK FALSE
