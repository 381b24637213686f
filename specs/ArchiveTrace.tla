----------------------------- MODULE ArchiveTrace -----------------------------
EXTENDS Archive, TraceBase
Old == [i \in 1..Len(E.b) |-> 119]
TReset == IsEvent("reset") /\ Reset
TWrite == IsEvent("write") /\ Write(E.b) /\ E.len = Len(buf')
TOpen  == IsEvent("open") /\ Open(E.cut) /\ E.failed = FALSE /\ E.eof = (Len(buf') = 0)
TRead  == IsEvent("read") /\ Read(Len(E.b)) /\ E.b = Result(Len(E.b), Old)
          /\ E.failed = failed' /\ E.eof = (pos' = Len(buf'))
vars == <<buf, pos, failed, reading, l>>
TraceSpec == Init /\ l = 1 /\ [][TReset \/ TWrite \/ TOpen \/ TRead]_vars
=============================================================================
