------------------------------- MODULE AabbTrace -------------------------------
EXTENDS Aabb, TraceBase
TPrim == IsEvent("prim") /\ Prim(E)
TCloud == IsEvent("cloud") /\ Cloud(E)
TWorld == IsEvent("world") /\ World(E)
TComp == IsEvent("comp") /\ Compound(E)
TMesh == IsEvent("mesh") /\ MeshBox(E)
TPlane == IsEvent("plane") /\ Plane(E)
TAlg == IsEvent("alg") /\ Algebra(E)
TraceSpec == l = 1 /\ [][TPrim \/ TCloud \/ TWorld \/ TComp \/ TMesh \/ TPlane \/ TAlg]_l
=============================================================================
