-------------------------- MODULE InputHistoryTrace --------------------------
EXTENDS InputHistory, TraceBase
\* Per entity, the values assigned by an import (E.vals: <<entity, kind, sequence of values in
\* the order assigned>>) and the actions appended (E.acts: <<entity, kind, sequence>>), non-empty
\* ones only. Entities in E.live exist in the importing registry.
Live == {E.live[k] : k \in 1..Len(E.live)}
Pos(s) == {s[k] : k \in 1..Len(s)}
Second(s) == [i \in 1..Len(s) |-> s[i][2]]
TReset == IsEvent("reset") /\ inp' = Nothing /\ act' = [e \in Ents |-> <<>>] /\ seen' = [e \in Ents |-> 0]
TRec == IsEvent("rec") /\ Record(E.ins, E.log, E.t, E.delta)
TErase == IsEvent("erase") /\ EraseUntil(E.t)
TRemove == IsEvent("rem") /\ Remove(E.i)
TEach == /\ IsEvent("each")
         /\ Pos(E.vals) = {v \in {<<e, k, Second(InWindow(e, k, E.s, E.len))>> : e \in Live, k \in 1..Kinds} : v[3] # <<>>}
         /\ Pos(E.acts) = {a \in {<<e, k, Flat(ActWindow(e, E.s, E.len), k)>> : e \in Live, k \in 1..Kinds} : a[3] # <<>>}
         /\ UNCHANGED hvars
TLatest == /\ IsEvent("latest")
           /\ Pos(E.vals) = {<<e, k, <<Upto(e, k, E.t)[Len(Upto(e, k, E.t))][2]>> >> :
                               <<e, k>> \in {p \in Live \X (1..Kinds) : Upto(p[1], p[2], E.t) # <<>>}}
           /\ E.acts = <<>>
           /\ UNCHANGED hvars
TraceInit == HInit /\ l = 1
TraceSpec == TraceInit /\ [][TReset \/ TRec \/ TErase \/ TRemove \/ TEach \/ TLatest]_<<hvars, l>>
=============================================================================
