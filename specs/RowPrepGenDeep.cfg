SPECIFICATION Spec
CONSTANT Depth = 9
CHECK_DEADLOCK FALSE
