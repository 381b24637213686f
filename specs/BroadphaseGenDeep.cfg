SPECIFICATION GSpec
CONSTANT Depth = 5
INVARIANT WellFormed
CHECK_DEADLOCK FALSE
