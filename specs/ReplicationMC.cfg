SPECIFICATION Spec
CONSTANTS Ents = {1, 2}
 Depth = 7
INVARIANTS Converged Clean
CHECK_DEADLOCK FALSE
