SPECIFICATION GSpec
CONSTANT Depth = 16
INVARIANT Counted
CHECK_DEADLOCK FALSE
