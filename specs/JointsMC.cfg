SPECIFICATION Spec
CONSTANT Turns = 6
INVARIANTS ActsAndReacts MayDoNothing RigidMotionFree HingeFree PushesBack
CHECK_DEADLOCK FALSE
