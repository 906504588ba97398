SPECIFICATION GSpec
CONSTANTS NK = 40
 EPB = 8
 Depth = 40
 SizeSet = {0, 1, 2, 3, 4, 5, 6}
 MaxBump = 2000
CONSTANT W <- WDef
INVARIANT Emit
CHECK_DEADLOCK FALSE
