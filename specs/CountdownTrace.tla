---------------------------- MODULE CountdownTrace ----------------------------
EXTENDS Countdown, TraceBase
TNext == \/ IsEvent("reset") /\ total' = 0 /\ called' = 0 /\ returned' = 0 /\ waiting' = {} /\ alive' = FALSE
         \/ IsEvent("new") /\ New(E.n)
         \/ IsEvent("dec") /\ Dec
         \/ IsEvent("decr") /\ DecReturn
         \/ IsEvent("wait") /\ Wait(E.t)
         \/ IsEvent("waited") /\ Waited(E.t)
         \/ IsEvent("gone") /\ Destroy
         \/ IsEvent("idle") /\ Idle
TraceInit == Init /\ l = 1
TraceSpec == TraceInit /\ [][TNext]_<<vars, l>>
=============================================================================
