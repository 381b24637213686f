------------------------------ MODULE VolumeTrace ------------------------------
EXTENDS Volume, TraceBase
TMe == IsEvent("mesh") /\ Mesh(E)
TSh == IsEvent("shape") /\ Shape(E)
TraceSpec == l = 1 /\ [][TMe \/ TSh]_l
=============================================================================
