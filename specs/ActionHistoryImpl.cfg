SPECIFICATION ISpec
CONSTANT Log <- MCLog
INVARIANTS OnceEach InOrder
CHECK_DEADLOCK FALSE
