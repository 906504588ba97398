SPECIFICATION VSpec
CONSTANTS NK = 3
 NH = 7
 NP = 4
CONSTANT TraceFile = "trace.ndjson"
INVARIANT Mark
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
