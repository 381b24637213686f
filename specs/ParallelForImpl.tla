--------------------------- MODULE ParallelForImpl ---------------------------
(* The mechanism behind ParallelTask: jobs in worker threads (and, when        *)
(* waiting, the caller) take chunks from a shared counter; the waiting form    *)
(* counts jobs down, the other form counts finished indices and references,   *)
(* the last reference frees the shared context. Every interleaving for every   *)
(* size up to MaxSize; checked to refine ParallelTask.                         *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS MaxSize, Workers, Mode        \* Mode: "wait" or "async"
VARIABLES n, cur, chunk, jobs, pc, lo, hi, count, comp, refs, alive, bad,
          started, finished, ncomp, ret
vars == <<n, cur, chunk, jobs, pc, lo, hi, count, comp, refs, alive, bad, started, finished, ncomp, ret>>
Caller == 0
Threads == 0..Workers
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Ceil(a, b) == (a \div b) + (IF a % b # 0 THEN 1 ELSE 0)
Init == /\ n \in 0..MaxSize
        /\ chunk = (IF Mode = "wait" THEN Max(n \div (Workers + 1), 1) ELSE Max(Ceil(n, Workers), 1))
        /\ jobs = (IF Mode = "wait" THEN (IF n = 0 THEN Workers ELSE Min(Workers, n - 1)) ELSE Min(Workers, n))
        /\ cur = 0 /\ comp = 0 /\ started = {} /\ finished = {} /\ ret = FALSE /\ bad = FALSE
        /\ count = jobs /\ refs = jobs /\ alive = TRUE
        /\ ncomp = (IF Mode = "async" /\ n = 0 THEN 1 ELSE 0)         \* nothing to do: completed at once
        /\ pc = [t \in Threads |-> IF t = Caller THEN (IF Mode = "wait" THEN "take" ELSE "done")
                                   ELSE IF t <= jobs THEN "take" ELSE "done"]
        /\ lo = [t \in Threads |-> 0] /\ hi = [t \in Threads |-> 0]
Go(t, s) == pc' = [pc EXCEPT ![t] = s]
Touch == bad' = (bad \/ ~alive)
Take(t) == /\ pc[t] = "take" /\ Touch
           /\ cur' = cur + chunk
           /\ lo' = [lo EXCEPT ![t] = cur] /\ hi' = [hi EXCEPT ![t] = Min(cur + chunk, n)]
           /\ Go(t, IF cur >= n THEN "leave" ELSE "begin")
           /\ UNCHANGED <<n, chunk, jobs, count, comp, refs, alive, started, finished, ncomp, ret>>
Begin(t) == /\ pc[t] = "begin" /\ Touch /\ started' = started \cup (lo[t]..(hi[t] - 1)) /\ Go(t, "end")
            /\ UNCHANGED <<n, cur, chunk, jobs, lo, hi, count, comp, refs, alive, finished, ncomp, ret>>
End(t) == /\ pc[t] = "end" /\ finished' = finished \cup (lo[t]..(hi[t] - 1)) /\ UNCHANGED bad
          /\ Go(t, IF Mode = "wait" THEN "take" ELSE "add")
          /\ UNCHANGED <<n, cur, chunk, jobs, lo, hi, count, comp, refs, alive, started, ncomp, ret>>
Add(t) == /\ pc[t] = "add" /\ Touch /\ comp' = comp + (hi[t] - lo[t])
          /\ Go(t, IF comp' = n THEN "complete" ELSE "take")
          /\ UNCHANGED <<n, cur, chunk, jobs, lo, hi, count, refs, alive, started, finished, ncomp, ret>>
Complete(t) == /\ pc[t] = "complete" /\ Touch /\ ncomp' = ncomp + 1 /\ Go(t, "leave")
               /\ UNCHANGED <<n, cur, chunk, jobs, lo, hi, count, comp, refs, alive, started, finished, ret>>
LeaveWait(t) == /\ Mode = "wait" /\ t # Caller /\ pc[t] = "leave" /\ Touch /\ count' = count - 1 /\ Go(t, "done")
                /\ UNCHANGED <<n, cur, chunk, jobs, lo, hi, comp, refs, alive, started, finished, ncomp, ret>>
LeaveAsync(t) == /\ Mode = "async" /\ pc[t] = "leave" /\ Touch /\ refs' = refs - 1 /\ Go(t, "done")
                 /\ alive' = (refs - 1 > 0)
                 /\ UNCHANGED <<n, cur, chunk, jobs, lo, hi, count, comp, started, finished, ncomp, ret>>
Wait == /\ Mode = "wait" /\ pc[Caller] = "leave" /\ count = 0 /\ ret' = TRUE /\ alive' = FALSE /\ Go(Caller, "done")
        /\ UNCHANGED <<n, cur, chunk, jobs, lo, hi, count, comp, refs, bad, started, finished, ncomp>>
Step(t) == Take(t) \/ Begin(t) \/ End(t) \/ Add(t) \/ Complete(t) \/ LeaveWait(t) \/ LeaveAsync(t)
Next == (\E t \in Threads : Step(t)) \/ Wait
Spec == Init /\ [][Next]_vars /\ (\A t \in Threads : WF_vars(Step(t))) /\ WF_vars(Wait)

NeverFreed == ~bad                                       \* the context is never used after it was freed
Ended == \A t \in Threads : pc[t] = "done"
Quiet == Ended => finished = 0..(n - 1) /\ (Mode = "async" => ncomp = 1 /\ (n > 0 => ~alive)) /\ (Mode = "wait" => ret)
Terminates == <>Ended
Abs == INSTANCE ParallelTask WITH size <- n, kind <- Mode, completed <- ncomp, returned <- ret,
         open <- {<<t, lo[t], hi[t]>> : t \in {u \in Threads : pc[u] = "end"}}
AbsNext == \/ \E t \in Threads, a \in 0..MaxSize, b \in 0..MaxSize : Abs!Call(t, a, b) \/ Abs!CallEnd(t, a, b)
           \/ Abs!Complete \/ Abs!Return
Refines == [][AbsNext]_<<n, started, finished, {<<t, lo[t], hi[t]>> : t \in {u \in Threads : pc[u] = "end"}}, ncomp, ret>>
=============================================================================
