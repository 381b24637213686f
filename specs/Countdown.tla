------------------------------ MODULE Countdown ------------------------------
(* A countdown (C03). called/returned count decrements begun and finished.    *)
EXTENDS Naturals, FiniteSets, TLC
VARIABLES total, called, returned, waiting, alive
vars == <<total, called, returned, waiting, alive>>
Init == total = 0 /\ called = 0 /\ returned = 0 /\ waiting = {} /\ alive = FALSE
New(n) == total' = n /\ called' = 0 /\ returned' = 0 /\ waiting' = {} /\ alive' = TRUE
Dec == alive /\ called < total /\ called' = called + 1 /\ UNCHANGED <<total, returned, waiting, alive>>
\* A decrement may return after the countdown was destroyed: it no longer touches it.
DecReturn == returned < called /\ returned' = returned + 1 /\ UNCHANGED <<total, called, waiting, alive>>
Wait(t) == alive /\ t \notin waiting /\ waiting' = waiting \cup {t} /\ UNCHANGED <<total, called, returned, alive>>
\* Only when every part has been counted.
Waited(t) == t \in waiting /\ called = total /\ waiting' = waiting \ {t} /\ UNCHANGED <<total, called, returned, alive>>
Destroy == alive /\ waiting = {} /\ called = total /\ alive' = FALSE /\ UNCHANGED <<total, called, returned, waiting>>
\* Nothing can move: no waiter is left behind once all parts have been counted.
Idle == returned = called /\ (called = total => waiting = {}) /\ UNCHANGED vars
=============================================================================
