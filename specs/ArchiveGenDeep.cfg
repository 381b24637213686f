SPECIFICATION GSpec
CONSTANTS Sizes = {1, 2, 4}
 MaxW = 3
 MaxR = 4
INVARIANTS InBounds
PROPERTIES Sticky
CHECK_DEADLOCK FALSE
