SPECIFICATION Spec
CONSTANTS Depth = 4
          Nodes0 = 2
CHECK_DEADLOCK FALSE
