SPECIFICATION GSpec
CONSTANT Depth = 6
INVARIANT Partition
CHECK_DEADLOCK FALSE
