SPECIFICATION RSpec
CONSTANTS KeyStr <- TabStr PrefixesOf <- TabPre ExtsOf <- TabExt
CONSTANT TraceFile = "trace.ndjson"
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
