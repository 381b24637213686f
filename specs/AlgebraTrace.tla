----------------------------- MODULE AlgebraTrace -----------------------------
EXTENDS Algebra, TraceBase
TV3 == IsEvent("v3") /\ V3(E)
TV2 == IsEvent("v2") /\ V2(E)
TM3 == IsEvent("m3") /\ M3(E)
TQt == IsEvent("qt") /\ Qt(E)
TRo == IsEvent("rot") /\ Rotation(E)
TAn == IsEvent("angles") /\ Angles(E)
TAx == IsEvent("axis") /\ AxisAngle(E)
TIn == IsEvent("integrate") /\ Integrate(E)
TAb == IsEvent("between") /\ AngleBetween(E)
TSl == IsEvent("slerp") /\ Slerp(E)
TAr == IsEvent("arc") /\ Arc(E)
TFr == IsEvent("frame") /\ Frame(E)
TSc == IsEvent("scalars") /\ Scalars(E)
TraceSpec == l = 1 /\ [][TV3 \/ TV2 \/ TM3 \/ TQt \/ TRo \/ TAn \/ TAx \/ TIn \/ TAb \/ TSl \/ TAr \/ TFr \/ TSc]_l
=============================================================================
