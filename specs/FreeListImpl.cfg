SPECIFICATION Spec
CONSTANTS Values = {1, 2}
          Block = 2
          MaxSlots = 6
INVARIANTS ChainIsDead SizeIsLive
PROPERTY Refines
CHECK_DEADLOCK FALSE
