SPECIFICATION Spec
CONSTANT MaxIdx = 2
INVARIANTS NoDangling Partition SingleMeansOne
CHECK_DEADLOCK FALSE
