SPECIFICATION GSpec
CONSTANT Depth = 12
INVARIANT Counted
CHECK_DEADLOCK FALSE
