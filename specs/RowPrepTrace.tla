----------------------------- MODULE RowPrepTrace -----------------------------
EXTENDS RowPrep, TraceBase
TReset == IsEvent("reset") /\ cons' = <<>> /\ next' = 1
TCon == IsEvent("con") /\ AddConstraint
TRow == IsEvent("row") /\ AddRow(E.t) /\ <<E.er, E.erp, E.re>> = DefaultOptions
TFri == IsEvent("fri") /\ Friction(E.t)
TRol == IsEvent("rol") /\ Rolling(E.t)
TSpi == IsEvent("spi") /\ Spinning(E.t)
TOpt == IsEvent("opt") /\ E.cur = Rows[Len(Rows)][1] /\ Options(1000 * E.t, 2000 * E.t, 3000 * E.t)
TConsume == IsEvent("consume") /\ Consume /\ E.n = Len(cons[next]) /\ E.got = cons[next]
TClear == IsEvent("clear") /\ Clear /\ E.left = 0
TraceInit == Init /\ l = 1
TraceSpec == TraceInit /\ [][TReset \/ TCon \/ TRow \/ TFri \/ TRol \/ TSpi \/ TOpt \/ TConsume \/ TClear]_<<vars, l>>
=============================================================================
