---------------------------- MODULE InsertionTrace ----------------------------
EXTENDS Insertion, TraceBase
TIn == IsEvent("ins") /\ Ins(E)
TraceSpec == l = 1 /\ [][TIn]_l
=============================================================================
