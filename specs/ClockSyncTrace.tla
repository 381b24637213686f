---------------------------- MODULE ClockSyncTrace ----------------------------
EXTENDS ClockSync, TraceBase
VARIABLES c, ids
\* E.sent: ids of the requests sent during the step; E.d: offset in thousandths of a tick.
NewId == IF E.sent = <<>> THEN 0 ELSE E.sent[1]
Observe(r) == /\ c' = r[1]
              /\ Len(E.sent) = (IF r[2] THEN 1 ELSE 0)
              /\ (r[2] => E.sent[1] \notin ids)            \* a new id: older responses cannot be mistaken
              /\ ids' = ids \cup {E.sent[k] : k \in 1..Len(E.sent)}
              /\ E.count = c'.count
              /\ Abs(E.d * 2 * c'.den - 1000 * c'.num) <= 20
TReset == IsEvent("reset") /\ c' = Fresh /\ ids' = {}
TUpd == IsEvent("upd") /\ \E r \in Update(c, E.t, E.rtt, E.delay, E.period, NewId) : Observe(r)
TResp == IsEvent("resp") /\ \E r \in Response(c, E.id, E.ts, E.t, NewId, 5) : Observe(r)
TraceInit == c = Fresh /\ ids = {} /\ l = 1
TraceSpec == TraceInit /\ [][TReset \/ TUpd \/ TResp]_<<c, ids, l>>
=============================================================================
