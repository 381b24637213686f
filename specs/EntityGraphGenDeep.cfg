SPECIFICATION Spec
CONSTANTS Depth = 5
          Nodes0 = 2
CHECK_DEADLOCK FALSE
