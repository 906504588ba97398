SPECIFICATION GSpec
CONSTANTS KeyStr <- TabStr PrefixesOf <- TabPre ExtsOf <- TabExt
CONSTANTS Depth = 40 PoolMax = 10
CONSTANT W <- WDef
INVARIANT Emit
CHECK_DEADLOCK FALSE
