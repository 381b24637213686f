SPECIFICATION GSpec
CONSTANTS Depth = 4
          N = 3
INVARIANTS Symmetric TypeOK
CHECK_DEADLOCK FALSE
