SPECIFICATION Spec
CONSTANTS N = 1
Kinds = 1
TMax = 6
INVARIANT OnceInOrder
CHECK_DEADLOCK FALSE
