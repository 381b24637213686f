SPECIFICATION GSpec
CONSTANT Depth = 4
INVARIANT WellFormed
CHECK_DEADLOCK FALSE
