-------------------------- MODULE ParallelTaskTrace --------------------------
EXTENDS ParallelTask, TraceBase
TNext == \/ IsEvent("reset") /\ size' = 0 /\ kind' = "none" /\ started' = {} /\ finished' = {} /\ open' = {} /\ completed' = 0 /\ returned' = FALSE
         \/ IsEvent("enq") /\ Enqueue(E.k, E.n)
         \/ IsEvent("call") /\ Call(E.t, E.a, E.b)
         \/ IsEvent("end") /\ CallEnd(E.t, E.a, E.b)
         \/ IsEvent("comp") /\ Complete
         \/ IsEvent("ret") /\ Return
         \/ IsEvent("idle") /\ Idle
TraceSpec == Init /\ l = 1 /\ [][TNext]_<<vars, l>>
=============================================================================
