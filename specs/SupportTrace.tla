----------------------------- MODULE SupportTrace -----------------------------
EXTENDS Support, TraceBase
TBx == IsEvent("bx") /\ BoxWorld(E)
TBl == IsEvent("bl") /\ BoxLocal(E)
TCy == IsEvent("cy") /\ Cyl(E)
TCi == IsEvent("ci") /\ Circle(E)
TCp == IsEvent("cp") /\ Capsule(E)
TTr == IsEvent("tr") /\ Tri(E)
TPy == IsEvent("py") /\ Poly(E)
TPg == IsEvent("pg") /\ Polygon3(E)
TraceSpec == l = 1 /\ [][TBx \/ TBl \/ TCy \/ TCi \/ TCp \/ TTr \/ TPy \/ TPg]_l
=============================================================================
