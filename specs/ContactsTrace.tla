---------------------------- MODULE ContactsTrace ----------------------------
EXTENDS Contacts, TraceBase
cvars == <<imp, ang>>
TReset == IsEvent("reset") /\ imp' = Fresh /\ UNCHANGED ang
TPrepare == IsEvent("prepare") /\ UNCHANGED cvars /\ ContactOk(E) /\ Carried(E, imp)
TStore == IsEvent("store") /\ imp' = StoreAt(imp, E.ro, E.sp, E.base) /\ UNCHANGED ang
TResolve == IsEvent("resolve") /\ UNCHANGED cvars /\ ResolveOk(E)
TPush == IsEvent("push") /\ UNCHANGED cvars /\ PushOk(E)
TraceSpec == l = 1 /\ imp = Fresh /\ ang = 0 /\ [][TReset \/ TPrepare \/ TStore \/ TResolve \/ TPush]_<<cvars, l>>
=============================================================================
