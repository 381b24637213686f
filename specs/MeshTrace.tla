------------------------------- MODULE MeshTrace -------------------------------
EXTENDS Mesh, TraceBase
TMe == IsEvent("mesh") /\ Adjacency(E)
TMi == IsEvent("mix") /\ Mix(E)
TCl == IsEvent("clip") /\ Clip(E)
TRe == IsEvent("region") /\ Region(E)
TRa == IsEvent("ray") /\ Ray(E)
TAl == IsEvent("all") /\ VisitAll(E)
TraceSpec == l = 1 /\ [][TMe \/ TMi \/ TCl \/ TRe \/ TRa \/ TAl]_l
=============================================================================
