SPECIFICATION Spec
CONSTANT Depth = 6
CHECK_DEADLOCK FALSE
