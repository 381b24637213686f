SPECIFICATION GSpec
CONSTANT Depth = 5
CHECK_DEADLOCK FALSE
