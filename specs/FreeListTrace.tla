---------------------------- MODULE FreeListTrace ----------------------------
EXTENDS FreeList, TraceBase

\* Everything the container reports after the step: every slot, count and emptiness.
Observed == /\ DOMAIN live' \subseteq 0..(Len(E.m) - 1)
            /\ \A k \in 1..Len(E.m) : E.m[k] = IF (k - 1) \in DOMAIN live' THEN live'[k - 1] ELSE Default
            /\ E.cnt = Cardinality(DOMAIN live')
            /\ E.emp = (DOMAIN live' = {})

\* slots are recycled: no index lies beyond what the largest number of elements held at once needs, in whole
\* chunks of sixteen
VARIABLE peak
Max(a, b) == IF a > b THEN a ELSE b
TReset  == IsEvent("reset") /\ live' = Empty /\ peak' = 0
TInsert == /\ IsEvent("ins") /\ Insert(E.i, E.v) /\ Observed
           /\ peak' = Max(peak, E.cnt) /\ E.i < 16 * ((peak' + 15) \div 16)
TRemove == IsEvent("rem") /\ Remove(E.i) /\ Observed /\ UNCHANGED peak
TModify == IsEvent("mod") /\ Modify(E.i, E.v) /\ Observed /\ UNCHANGED peak
TClear  == IsEvent("clr") /\ Clear /\ Observed /\ UNCHANGED peak
TraceInit == Init /\ l = 1 /\ peak = 0
TraceNext == TReset \/ TInsert \/ TRemove \/ TModify \/ TClear
TraceSpec == TraceInit /\ [][TraceNext]_<<live, peak, l>>
=============================================================================
