SPECIFICATION TraceSpec
CONSTANTS R = {}
          L = {}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
