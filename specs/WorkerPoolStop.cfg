SPECIFICATION Spec
CONSTANTS Workers = {w1, w2}
          Submitters = {s1}
          JobsEach = 2
          CountFirst = TRUE
          FlagAtInit = TRUE
          Stops = TRUE
INVARIANTS AtMostOnce AlwaysAChoice NoneLost QuietAfterStop
PROPERTY Terminates
CHECK_DEADLOCK FALSE
