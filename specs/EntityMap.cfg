SPECIFICATION Spec
CONSTANTS R = {1, 2, 3}
          L = {4, 5, 6}
INVARIANT OneToOne
CHECK_DEADLOCK FALSE
