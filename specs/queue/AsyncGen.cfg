SPECIFICATION GSpec
CONSTANTS NP = 4
 NK = 8
 Depth = 24
CONSTANT W <- WDef
INVARIANT Emit
CHECK_DEADLOCK FALSE
