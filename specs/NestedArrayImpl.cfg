SPECIFICATION Spec
CONSTANT Max = 5
PROPERTY Refines
CHECK_DEADLOCK FALSE
