SPECIFICATION GSpec
CONSTANTS Depth = 5
          R = {1, 2}
          L = {2, 3}
CHECK_DEADLOCK FALSE
