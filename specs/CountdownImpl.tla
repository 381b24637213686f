---------------------------- MODULE CountdownImpl ----------------------------
(* The mechanism: mutex, condition variable with spurious wakeups, one waiter *)
(* that destroys the countdown when its wait returns. Every interleaving.     *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Decs          \* decrementing threads, one decrement each
VARIABLES count, done, owner, pc, sleeping, alive, touchedDead
vars == <<count, done, owner, pc, sleeping, alive, touchedDead>>
W == "waiter"
Threads == Decs \cup {W}
Init == /\ count = Cardinality(Decs) /\ done = FALSE /\ owner = "none"
        /\ pc = [t \in Threads |-> "start"] /\ sleeping = FALSE /\ alive = TRUE /\ touchedDead = FALSE
Touch == touchedDead' = (touchedDead \/ ~alive)
Go(t, s) == pc' = [pc EXCEPT ![t] = s]
Lock(t)   == pc[t] = "start" /\ owner = "none" /\ owner' = t /\ Go(t, "in") /\ Touch /\ UNCHANGED <<count, done, sleeping, alive>>
DecStep(t) == /\ t \in Decs /\ pc[t] = "in"
              /\ count' = count - 1 /\ done' = (count - 1 = 0) /\ Touch
              /\ Go(t, IF count - 1 = 0 THEN "notify" ELSE "unlock") /\ UNCHANGED <<owner, sleeping, alive>>
Notify(t) == /\ t \in Decs /\ pc[t] = "notify" /\ Touch
             /\ IF sleeping THEN sleeping' = FALSE /\ pc' = [pc EXCEPT ![t] = "unlock", ![W] = "relock"]
                ELSE Go(t, "unlock") /\ UNCHANGED sleeping
             /\ UNCHANGED <<count, done, owner, alive>>
Unlock(t) == pc[t] = "unlock" /\ owner' = "none" /\ Go(t, "done") /\ Touch /\ UNCHANGED <<count, done, sleeping, alive>>
Test == /\ pc[W] = "in"
        /\ IF done THEN Go(W, "unlock") /\ UNCHANGED <<owner, sleeping>>
           ELSE Go(W, "asleep") /\ owner' = "none" /\ sleeping' = TRUE
        /\ Touch /\ UNCHANGED <<count, done, alive>>
Spurious == pc[W] = "asleep" /\ sleeping /\ sleeping' = FALSE /\ Go(W, "relock") /\ UNCHANGED <<count, done, owner, alive, touchedDead>>
Relock == pc[W] = "relock" /\ owner = "none" /\ owner' = W /\ Go(W, "in") /\ Touch /\ UNCHANGED <<count, done, sleeping, alive>>
Destroy == pc[W] = "done" /\ alive /\ alive' = FALSE /\ UNCHANGED <<count, done, owner, pc, sleeping, touchedDead>>
Next == \/ \E t \in Threads : Lock(t) \/ DecStep(t) \/ Notify(t) \/ Unlock(t)
        \/ Test \/ Spurious \/ Relock \/ Destroy
Fair == /\ \A t \in Threads : SF_vars(Lock(t)) /\ WF_vars(DecStep(t)) /\ WF_vars(Notify(t)) /\ WF_vars(Unlock(t))
        /\ WF_vars(Test) /\ SF_vars(Relock)
Spec == Init /\ [][Next]_vars /\ Fair
NotEarly == pc[W] \in {"unlock", "done"} => count = 0
NeverTouchedDead == ~touchedDead
Returns == <>(pc[W] = "done")
=============================================================================
