SPECIFICATION Spec
CONSTANTS Depth = 3
          Starts = {0, 1, 2, 3, 4, 6}
CHECK_DEADLOCK FALSE
