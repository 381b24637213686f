SPECIFICATION GSpec
CONSTANT Depth = 4
INVARIANTS Faithful Distinct
CHECK_DEADLOCK FALSE
