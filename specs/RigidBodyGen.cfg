SPECIFICATION GSpec
CONSTANT Depth = 4
CHECK_DEADLOCK FALSE
