-------------------------- MODULE ActionHistoryTrace --------------------------
EXTENDS ActionHistory, TraceBase
Observed == E.m = entries' /\ E.emp = (entries' = <<>>)
TReset == IsEvent("reset") /\ entries' = <<>> /\ seen' = {}
TMerge == IsEvent("merge") /\ Merge(E.b) /\ Observed
TErase == IsEvent("erase") /\ EraseUntil(E.t) /\ Observed
TSort  == IsEvent("sort") /\ Sort(E.m)
TCollect == IsEvent("collect") /\ entries = <<>> /\ entries' = E.b /\ UNCHANGED seen /\ Observed
TraceInit == Init /\ l = 1
TraceSpec == TraceInit /\ [][TReset \/ TMerge \/ TErase \/ TSort \/ TCollect]_<<entries, seen, l>>
=============================================================================
