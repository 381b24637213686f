SPECIFICATION TraceSpec
CONSTANT MaxIdx = 0
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
