SPECIFICATION TraceSpec
CONSTANTS Values = {}
          MaxIndex = 0
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
