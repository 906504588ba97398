SPECIFICATION MSpec
CONSTANTS NP = 2
 NK = 3
 MaxOps = 2
INVARIANTS Private InFlight Shared Last
CHECK_DEADLOCK FALSE
