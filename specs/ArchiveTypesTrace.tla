-------------------------- MODULE ArchiveTypesTrace --------------------------
EXTENDS Archive, TraceBase
CONSTANT Which
Round == Which = "round"
Stay == UNCHANGED <<buf, pos, failed, reading>>
TTrip == IsEvent("trip") /\ Stay /\ (Round => RoundTrip(E)) /\ (~Round => ~E.failed /\ E.eof)
TPair == IsEvent("pair") /\ Stay /\ (Round => Twice(E)) /\ (~Round => ~E.failed /\ E.eof)
TLong == IsEvent("long") /\ Stay /\ (Round => Long(E)) /\ (~Round => ~E.failed /\ E.eof)
TCuts == IsEvent("cuts") /\ Stay /\ (Round => Bounded(E)) /\ (~Round => Truncated(E))
TraceSpec == Init /\ l = 1 /\ [][TTrip \/ TPair \/ TLong \/ TCuts]_<<buf, pos, failed, reading, l>>
=============================================================================
