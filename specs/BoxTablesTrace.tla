---------------------------- MODULE BoxTablesTrace ----------------------------
EXTENDS BoxTables, TraceBase
TBo == IsEvent("box") /\ Box(E)
TCf == IsEvent("cf") /\ ClosestFeature(E)
TSf == IsEvent("sf") /\ SupportFace(E)
TMe == IsEvent("mesh") /\ BoxMesh(E)
TPl == IsEvent("plane") /\ PlaneMesh(E)
TraceSpec == l = 1 /\ [][TBo \/ TCf \/ TSf \/ TMe \/ TPl]_l
=============================================================================
