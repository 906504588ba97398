SPECIFICATION MSpec
CONSTANTS Classes = 3
 Cap = 1
 Block = 6
 MaxTail = 8
INVARIANTS Apart Inside Account Crossing Identity
CHECK_DEADLOCK FALSE
