---------------------------- MODULE RaycastTrace ----------------------------
EXTENDS Raycast, TraceBase
TReset == IsEvent("reset") /\ bodies' = E.bs
TMove == IsEvent("move") /\ Move(E.k, E.pos, E.m)
TDrop == IsEvent("drop") /\ Drop(E.k)
TRay == IsEvent("ray") /\ RayOK(E.p0, E.p1, E.one, E.all, {E.ig[j] : j \in DOMAIN E.ig}) /\ UNCHANGED rvars
TraceSpec == bodies = <<>> /\ l = 1 /\ [][TReset \/ TMove \/ TDrop \/ TRay]_<<rvars, l>>
=============================================================================
