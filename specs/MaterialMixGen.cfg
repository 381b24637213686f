SPECIFICATION Spec
CONSTANT Depth = 4
CHECK_DEADLOCK FALSE
