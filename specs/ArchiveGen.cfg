SPECIFICATION GSpec
CONSTANTS Sizes = {1, 2, 4, 8}
 MaxW = 2
 MaxR = 3
INVARIANTS InBounds
PROPERTIES Sticky
CHECK_DEADLOCK FALSE
