--------------------------- MODULE EntityMapTrace ---------------------------
EXTENDS EntityMap, TraceBase, Integers
Rng(s) == {s[i] : i \in DOMAIN s}
(* after every step: contains/at in both directions for every known entity, and each() *)
Observed ==
  /\ Rng(E.each) = pairs' /\ Len(E.each) = Cardinality(pairs')
  /\ \A k \in DOMAIN E.q :
       LET q == E.q[k]                      \* <<entity, partner as remote or -1, partner as local or -1>>
           f == {p[2] : p \in {p \in pairs' : p[1] = q[1]}}
           b == {p[1] : p \in {p \in pairs' : p[2] = q[1]}}
       IN (IF f = {} THEN q[2] = -1 ELSE {q[2]} = f) /\ (IF b = {} THEN q[3] = -1 ELSE {q[3]} = b)
TReset == IsEvent("reset") /\ pairs' = {}
TIns == IsEvent("ins") /\ Insert(E.a, E.b) /\ Observed
TEr == IsEvent("er") /\ Erase(E.a) /\ Observed
TEl == IsEvent("el") /\ EraseLocal(E.a) /\ Observed
(* the predicate is asked once for each pair *)
TIf == IsEvent("if") /\ Rng(E.asked) = pairs /\ Len(E.asked) = Cardinality(pairs)
       /\ EraseIf({p \in pairs : (p[1] + (3 * p[2])) % E.m = 0}) /\ Observed
TSw == IsEvent("sw") /\ Swap /\ Observed
TCl == IsEvent("cl") /\ Clear /\ Observed
TraceSpec == Init /\ l = 1 /\ [][TReset \/ TIns \/ TEr \/ TEl \/ TIf \/ TSw \/ TCl]_<<pairs, l>>
=============================================================================
