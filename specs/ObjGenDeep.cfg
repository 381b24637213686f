SPECIFICATION Spec
CONSTANT Depth = 5
CHECK_DEADLOCK FALSE
