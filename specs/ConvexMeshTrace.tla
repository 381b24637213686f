---------------------------- MODULE ConvexMeshTrace ----------------------------
EXTENDS ConvexMesh, TraceBase
TMesh == IsEvent("mesh") /\ Mesh(E)
TBad == IsEvent("bad") /\ ~E.ok              \* dented or bent meshes do not validate
TraceSpec == l = 1 /\ [][TMesh \/ TBad]_l
=============================================================================
