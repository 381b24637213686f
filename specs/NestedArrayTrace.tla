--------------------------- MODULE NestedArrayTrace ---------------------------
EXTENDS NestedArray, TraceBase
Observed == E.m = arrays'
TReset == IsEvent("reset") /\ arrays' = <<>>
TArray == IsEvent("array") /\ PushArray /\ Observed
TValue == IsEvent("value") /\ PushBack(E.v) /\ Observed
TKeep  == (IsEvent("reserve") \/ IsEvent("copy")) /\ Keep /\ Observed
TraceInit == Init /\ l = 1
TraceSpec == TraceInit /\ [][TReset \/ TArray \/ TValue \/ TKeep]_<<arrays, l>>
=============================================================================
