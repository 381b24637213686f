------------------------------ MODULE SolverTrace ------------------------------
EXTENDS Solver, TraceBase
vars == <<imp, dv, dw, cfg, l>>
TReset == IsEvent("reset") /\ UNCHANGED <<imp, dv, dw, cfg>>
TBegin == IsEvent("begin") /\ Begin(E)
TWarm == IsEvent("warm") /\ WarmStart(E) /\ Accumulated'
TSolve == IsEvent("solve") /\ SolveRow(E.r, E) /\ Accumulated'
TLimits == IsEvent("limits") /\ SetLimits(E)
TFric == IsEvent("friction") /\ Friction(E) /\ Accumulated'
TSpin == IsEvent("spin") /\ Spin(E) /\ Accumulated'
TraceSpec == l = 1 /\ imp = <<>> /\ dv = <<>> /\ dw = <<>> /\ cfg = [warm |-> FALSE] /\ [][TReset \/ TBegin \/ TWarm \/ TSolve \/ TLimits \/ TFric \/ TSpin]_vars
=============================================================================
