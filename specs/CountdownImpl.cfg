SPECIFICATION Spec
CONSTANT Decs = {d1, d2, d3}
INVARIANTS NotEarly NeverTouchedDead
PROPERTY Returns
CHECK_DEADLOCK FALSE
