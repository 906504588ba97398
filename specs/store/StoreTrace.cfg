SPECIFICATION VSpec
CONSTANT TraceFile = "trace.ndjson"
INVARIANT Mark
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
