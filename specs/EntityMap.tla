------------------------------ MODULE EntityMap ------------------------------
(* A one-to-one mapping between remote and local entities (C09).              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLE pairs                       \* set of <<remote, local>>
Init == pairs = {}
Remotes == {p[1] : p \in pairs}
Locals == {p[2] : p \in pairs}
Insert(a, b) == a \notin Remotes /\ b \notin Locals /\ pairs' = pairs \cup {<<a, b>>}
Erase(a) == a \in Remotes /\ pairs' = {p \in pairs : p[1] # a}
EraseLocal(b) == b \in Locals /\ pairs' = {p \in pairs : p[2] # b}
EraseIf(S) == pairs' = pairs \ S                       \* S: pairs for which the predicate holds
Swap == pairs' = {<<p[2], p[1]>> : p \in pairs}
Clear == pairs' = {}
OneToOne == \A p, q \in pairs : (p[1] = q[1] \/ p[2] = q[2]) => p = q
CONSTANTS R, L
Next == \/ \E a \in R, b \in L : Insert(a, b) \/ Insert(b, a)
        \/ \E a \in R \cup L : Erase(a) \/ EraseLocal(a)
        \/ \E S \in SUBSET pairs : EraseIf(S)
        \/ Swap \/ Clear
Spec == Init /\ [][Next]_pairs
=============================================================================
