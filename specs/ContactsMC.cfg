SPECIFICATION Spec
INVARIANTS ActsAndReacts RigidMotionFree NeverPulls DeeperIsStiffer FasterIsStiffer PointsShare
CHECK_DEADLOCK FALSE
