-------------------------- MODULE ModifiedCompsTrace --------------------------
EXTENDS ModifiedComps, TraceBase
Present == {E.p[k] : k \in 1..Len(E.p)}
Observed == /\ Cardinality(Present) = Len(E.p)
            /\ LET must == {i \in DOMAIN age' : age'[i] < E.dur}
               IN /\ must \subseteq Present /\ Present \subseteq DOMAIN age'
                  /\ (must # {} => ~E.emp) /\ (DOMAIN age' = {} => E.emp)
TReset == IsEvent("reset") /\ age' = Empty
TBump == IsEvent("bump") /\ Bump(E.i) /\ Observed
TDecay == IsEvent("decay") /\ Elapse(E.t, E.dur) /\ Observed
TraceInit == Init /\ l = 1
TraceSpec == TraceInit /\ [][TReset \/ TBump \/ TDecay]_<<age, l>>
=============================================================================
