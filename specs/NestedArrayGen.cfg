SPECIFICATION Spec
CONSTANT Depth = 11
CHECK_DEADLOCK FALSE
