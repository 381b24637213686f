----------------------------- MODULE JointsTrace -----------------------------
EXTENDS Joints, TraceBase
TReset == IsEvent("reset") /\ ang' = 0
TRows == IsEvent("rows") /\ UNCHANGED ang /\ RowsOk(E, E.a)
TCone == IsEvent("cone") /\ UNCHANGED ang /\ ConeOk(E)
TSettle == IsEvent("settle") /\ UNCHANGED ang /\ Settled(E)
TPos == IsEvent("pos") /\ UNCHANGED ang /\ PosOk(E)
TTurn == IsEvent("turn") /\ Turn(E) /\ NearT(E.now, ang + E.by) /\ RowsOk(E, ang + E.by)
TraceSpec == l = 1 /\ ang = 0 /\ [][TReset \/ TRows \/ TCone \/ TSettle \/ TPos \/ TTurn]_<<ang, l>>
=============================================================================
