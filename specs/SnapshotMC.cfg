SPECIFICATION Spec
INVARIANTS NoTugOfWar OneMaster NothingHeldBack NoneRefused EveryoneTold
CHECK_DEADLOCK FALSE
