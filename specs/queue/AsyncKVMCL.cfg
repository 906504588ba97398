SPECIFICATION MSpec
CONSTANTS NP = 2
 NK = 3
 MaxOps = 3
INVARIANTS Private InFlight Shared Last
CHECK_DEADLOCK FALSE
