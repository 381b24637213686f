SPECIFICATION Spec
CONSTANTS Workers = {w1, w2}
          Submitters = {s1, s2, s3}
          JobsEach = 1
          CountFirst = TRUE
          FlagAtInit = TRUE
          Stops = FALSE
INVARIANTS AtMostOnce AlwaysAChoice NoneLost QuietAfterStop
PROPERTY Terminates
CHECK_DEADLOCK FALSE
