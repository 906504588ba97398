SPECIFICATION Spec
CONSTANTS KeyStr <- TabStr PrefixesOf <- TabPre ExtsOf <- TabExt MaxOps = 4
CONSTRAINT Bound
INVARIANTS TypeOK Unique QueryLaws
PROPERTIES OneKey Fresh
CHECK_DEADLOCK FALSE
