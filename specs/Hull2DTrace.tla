------------------------------ MODULE Hull2DTrace ------------------------------
EXTENDS Hull2D, TraceBase
THu == IsEvent("hull") /\ HullOK(E)
TCc == IsEvent("ccw") /\ CcwOK(E)
TPq == IsEvent("pq") /\ PolyOK(E)
TraceSpec == l = 1 /\ [][THu \/ TCc \/ TPq]_l
=============================================================================
