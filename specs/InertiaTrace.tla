----------------------------- MODULE InertiaTrace -----------------------------
EXTENDS Inertia, TraceBase
TPrim == IsEvent("prim") /\ Prim(E)
TPoly == IsEvent("poly") /\ Poly(E)
TShift == IsEvent("shift") /\ Shift(E)
TComp == IsEvent("comp") /\ Compound(E)
TWorld == IsEvent("world") /\ World(E)
TraceSpec == l = 1 /\ [][TPrim \/ TPoly \/ TShift \/ TComp \/ TWorld]_l
=============================================================================
