---------------------------- MODULE MessagesTrace ----------------------------
EXTENDS Messages, TraceBase
TNext == \/ IsEvent("reset") /\ now' = 1 /\ queues' = {} /\ msgs' = NoMsgs /\ delivered' = {} /\ owed' = NoMsgs /\ running' = {} /\ pushes' = NoMsgs
         \/ IsEvent("mk") /\ MakeQueue(E.q)
         \/ IsEvent("sb") /\ SendBegin(E.id, E.q, E.from, E.k)
         \/ IsEvent("se") /\ SendEnd(E.id)
         \/ IsEvent("ub") /\ UpdateBegin(E.q)
         \/ IsEvent("d") /\ E.ok /\ Deliver(E.q, E.id, E.from, E.k)
         \/ IsEvent("ue") /\ UpdateEnd(E.q)
         \/ IsEvent("p") /\ Push(E.q)
         \/ IsEvent("clr") /\ ClearQueues
         \/ IsEvent("rest") /\ Rest
TraceSpec == Init /\ l = 1 /\ [][TNext]_<<vars, l>>
=============================================================================
