---------------------------- MODULE PagedConcTrace ----------------------------
(* Concurrent visits of a paged mesh: at most one request per page until it   *)
(* is loaded, only true content is seen, and in the end all is available.     *)
EXTENDS Integers, FiniteSets, TraceBase
VARIABLES out, np, file, fin, seen
cv == <<out, np, file, fin, seen>>
TNext == \/ IsEvent("reset") /\ out' = {} /\ np' = 0 /\ file' = FALSE /\ fin' = FALSE /\ seen' = {}
         \/ IsEvent("mesh") /\ np' = E.n /\ file' = E.file /\ UNCHANGED <<out, fin, seen>>
         \/ IsEvent("req") /\ E.p \in 1..np /\ E.p \notin out /\ ~fin
            /\ out' = (IF file THEN out ELSE out \cup {E.p}) /\ UNCHANGED <<np, file, fin, seen>>
         \/ IsEvent("arr") /\ E.p \in out /\ out' = out \ {E.p} /\ UNCHANGED <<np, file, fin, seen>>
         \/ IsEvent("v") /\ E.ok /\ E.k \in 1..2 /\ E.p \in 1..np
            /\ (fin => <<E.p, E.k>> \notin seen) /\ seen' = (IF fin THEN seen \cup {<<E.p, E.k>>} ELSE {})
            /\ UNCHANGED <<out, np, file, fin>>
         \/ IsEvent("fin") /\ out = {} /\ fin' = TRUE /\ UNCHANGED <<out, np, file, seen>>
         \/ IsEvent("end") /\ seen = (1..np) \X (1..2) /\ E.nv = 4 * np /\ UNCHANGED cv
TraceSpec == out = {} /\ np = 0 /\ file = FALSE /\ fin = FALSE /\ seen = {} /\ l = 1 /\ [][TNext]_<<cv, l>>
=============================================================================
