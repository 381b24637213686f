------------------------------- MODULE ObjTrace -------------------------------
EXTENDS Obj, TraceBase
TObj == IsEvent("obj") /\ Loaded(E)
TPoly == IsEvent("poly") /\ Polyhedrons(E)
TraceSpec == l = 1 /\ [][TObj \/ TPoly]_l
=============================================================================
