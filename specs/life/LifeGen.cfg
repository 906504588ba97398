SPECIFICATION GSpec
CONSTANTS NK = 3
 NH = 7
 NP = 4
 Depth = 24
 CfgSet = {0, 1}
 OneOpen = FALSE
 Kills = 15
CONSTANT W <- WDef
INVARIANT Emit
CHECK_DEADLOCK FALSE
