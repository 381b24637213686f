------------------------------ MODULE FreeList ------------------------------
(* Index-stable storage (C06). The state is what a user sees: which indices  *)
(* are live and what each holds. Every other slot reads as the default.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Values,       \* values a user can store (the default, 0, excluded)
          MaxIndex      \* indices considered when the model is explored

VARIABLE live           \* function: live index -> value

Default == 0
Empty == [x \in {} |-> Default]

Init == live = Empty

Insert(i, v) == /\ i \notin DOMAIN live          \* never an index in use
                /\ live' = (i :> v) @@ live
Remove(i)    == /\ i \in DOMAIN live
                /\ live' = [j \in DOMAIN live \ {i} |-> live[j]]
Modify(i, v) == /\ i \in DOMAIN live
                /\ live' = [live EXCEPT ![i] = v]
Clear        == live' = Empty

\* What reading any slot yields, and what count()/empty() yield.
Read(i) == IF i \in DOMAIN live THEN live[i] ELSE Default
Count   == Cardinality(DOMAIN live)

Next == \/ \E i \in 0..MaxIndex, v \in Values : Insert(i, v) \/ Modify(i, v)
        \/ \E i \in 0..MaxIndex : Remove(i)
        \/ Clear
Spec == Init /\ [][Next]_live

TypeOK == DOMAIN live \subseteq Nat /\ \A i \in DOMAIN live : live[i] \in Values
=============================================================================
