SPECIFICATION GSpec
CONSTANTS Depth = 6
          R = {1, 2}
          L = {2, 3}
CHECK_DEADLOCK FALSE
