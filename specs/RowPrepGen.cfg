SPECIFICATION Spec
CONSTANT Depth = 7
CHECK_DEADLOCK FALSE
