SPECIFICATION Spec
CONSTANTS MaxSize = 5
          Workers = 3
          Mode = "wait"
INVARIANTS NeverFreed Quiet
PROPERTIES Terminates Refines
CHECK_DEADLOCK FALSE
