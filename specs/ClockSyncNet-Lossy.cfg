SPECIFICATION Spec
CONSTANTS
 Off = 3
 Latency = 1
 Rtt = 2
 Delay = 1
 Period = 4
 Max = 2
 TMax = 11
 Faults = 2
 Deadline = 12
INVARIANTS OffsetSound Pending OneSampleEach InTime
CHECK_DEADLOCK FALSE
