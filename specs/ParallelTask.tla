---------------------------- MODULE ParallelTask ----------------------------
(* A task over the indices 0..N-1 run in worker threads (C04). The state is   *)
(* what the task function and the caller see.                                 *)
EXTENDS Naturals, FiniteSets, Sequences, TLC
VARIABLES size,        \* N
          kind,        \* "wait", "async" (with completion), "fire" (without) or "none"
          started,     \* indices handed to a call of the task
          finished,    \* indices of calls that have returned
          open,        \* calls under way: set of <<thread, start, end>>
          completed,   \* times the completion ran
          returned     \* the waiting call has returned
vars == <<size, kind, started, finished, open, completed, returned>>
Init == size = 0 /\ kind = "none" /\ started = {} /\ finished = {} /\ open = {} /\ completed = 0 /\ returned = FALSE
Range(a, b) == a..(b - 1)
All == 0..(size - 1)
Enqueue(k, n) == kind = "none" /\ kind' = k /\ size' = n /\ UNCHANGED <<started, finished, open, completed, returned>>
Call(t, a, b) == /\ kind # "none" /\ a <= b /\ b <= size
                 /\ Range(a, b) \cap started = {}
                 /\ ~returned /\ completed = 0
                 /\ started' = started \cup Range(a, b)
                 /\ open' = open \cup {<<t, a, b>>}
                 /\ UNCHANGED <<size, kind, finished, completed, returned>>
CallEnd(t, a, b) == /\ <<t, a, b>> \in open
                    /\ open' = open \ {<<t, a, b>>}
                    /\ finished' = finished \cup Range(a, b)
                    /\ UNCHANGED <<size, kind, started, completed, returned>>
(* the completion runs once, after everything *)
Complete == /\ kind = "async" /\ finished = All /\ open = {} /\ completed = 0
            /\ completed' = 1 /\ UNCHANGED <<size, kind, started, finished, open, returned>>
Return == /\ kind = "wait" /\ finished = All /\ open = {} /\ ~returned
          /\ returned' = TRUE /\ UNCHANGED <<size, kind, started, finished, open, completed>>
(* nothing left to run: everything has happened *)
Idle == /\ finished = All /\ open = {}
        /\ (kind = "async" => completed = 1) /\ (kind = "wait" => returned)
        /\ UNCHANGED vars
=============================================================================
