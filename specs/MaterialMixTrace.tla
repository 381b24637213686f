--------------------------- MODULE MaterialMixTrace ---------------------------
EXTENDS MaterialMix, TraceBase
Observed == \A i \in 1..Len(E.ids), j \in 1..Len(E.ids) : E.m[i][j] = Lookup(table', E.ids[i], E.ids[j])
TReset == IsEvent("reset") /\ table' = Empty
TIns   == IsEvent("ins") /\ Insert(E.a, E.b, E.v) /\ Observed
TRem   == IsEvent("rem") /\ Remove(E.a, E.b) /\ Observed
\* Equality of pairs ignores order, and < is a strict total order on pairs seen as sets.
TPairs == /\ IsEvent("pairs") /\ UNCHANGED table
          /\ LET P == 0..(E.k * E.k - 1)
                 S(p) == {p \div E.k, p % E.k}
                 lt(p, q) == E.lt[p + 1][q + 1] = 1
             IN /\ \A p, q \in P : (E.eq[p + 1][q + 1] = 1) <=> S(p) = S(q)
                /\ \A p, q \in P : (~lt(p, q) /\ ~lt(q, p)) <=> S(p) = S(q)
                /\ \A p, q \in P : ~(lt(p, q) /\ lt(q, p))
                /\ \A p, q, r \in P : lt(p, q) /\ lt(q, r) => lt(p, r)
TMix == /\ IsEvent("mix") /\ UNCHANGED table
        /\ MinMix(E.a, E.b, E.res) /\ RootMix(E.a, E.b, E.fri)
        /\ MaxMix(E.a, E.b, E.spi) /\ MaxMix(E.a, E.b, E.rol)
        /\ (E.a > 0 /\ E.b > 0 => HarmMix(E.a, E.b, E.sti) /\ HarmMix(E.a, E.b, E.dam))
TRigid == /\ IsEvent("rigid") /\ UNCHANGED table         \* one side is rigid: the other decides
          /\ \A p \in {E.sti, E.dam} : Same(p) /\ Abs(p[1] - 1000 * E.a) <= 1
TraceInit == Init /\ l = 1
TraceSpec == TraceInit /\ [][TReset \/ TIns \/ TRem \/ TPairs \/ TMix \/ TRigid]_<<table, l>>
=============================================================================
