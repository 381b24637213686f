SPECIFICATION TraceSpec
CONSTANTS N = 4
Kinds = 2
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
