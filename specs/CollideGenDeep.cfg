SPECIFICATION GSpec
CONSTANTS Depth = 5
          N = 3
INVARIANTS Symmetric TypeOK
CHECK_DEADLOCK FALSE
