---------------------------- MODULE ModifiedComps ----------------------------
(* Which components of an entity count as modified (C26). age: component ->   *)
(* time since its last change, for components changed at most Duration ago.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLE age
Empty == [x \in {} |-> 0]
Init == age = Empty
Bump(i) == age' = (i :> 0) @@ age
Elapse(t, dur) == age' = [i \in {j \in DOMAIN age : age[j] + t <= dur} |-> age[i] + t]
\* Must be exported: changed less than Duration ago. At exactly Duration either is right.
Must(dur) == {i \in DOMAIN age : age[i] < dur}
May == DOMAIN age
=============================================================================
