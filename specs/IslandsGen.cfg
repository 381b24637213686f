SPECIFICATION GSpec
CONSTANT Depth = 5
INVARIANT Partition
CHECK_DEADLOCK FALSE
