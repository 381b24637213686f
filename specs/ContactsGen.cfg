SPECIFICATION GSpec
CONSTANT Depth = 3
INVARIANTS Faithful Distinct
CHECK_DEADLOCK FALSE
