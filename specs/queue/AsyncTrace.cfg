SPECIFICATION VSpec
CONSTANTS NP = 4
 NK = 8
CONSTANT TraceFile = "trace.ndjson"
INVARIANT Mark
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
