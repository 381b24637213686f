SPECIFICATION MSpec
CONSTANT MaxTime = 9
CONSTRAINT Small
INVARIANTS NoDrift Bounded PausedStill ManualOne TimeInRange Shown
CHECK_DEADLOCK FALSE
