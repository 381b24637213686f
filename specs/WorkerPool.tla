----------------------------- MODULE WorkerPool -----------------------------
(* The mechanism of job_dispatcher / worker / job_queue step by step: every   *)
(* access to a shared variable is one action, so TLC explores all             *)
(* interleavings of submitters, workers and the stopping thread.              *)
(* CountFirst: a job is counted before it is queued. FlagAtInit: a worker's   *)
(* running flag is set before its thread exists. Both describe the tree as    *)
(* repaired; with either FALSE TLC shows the defect.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Workers, Submitters, JobsEach, CountFirst, FlagAtInit, Stops
VARIABLES queue, size, flag, wpc, cur, spc, left, best, scan, executed, stpc, bad
vars == <<queue, size, flag, wpc, cur, spc, left, best, scan, executed, stpc, bad>>
Noop == <<"noop", 0>>
Wrap == 999                          \* size_t(-1)
Jobs == Submitters \X (1..JobsEach)
Init == /\ queue = [w \in Workers |-> <<>>] /\ size = [w \in Workers |-> 0]
        /\ flag = [w \in Workers |-> FlagAtInit] /\ wpc = [w \in Workers |-> "begin"]
        /\ cur = [w \in Workers |-> Noop]
        /\ spc = [s \in Submitters |-> "choose"] /\ left = [s \in Submitters |-> 1]
        /\ best = [s \in Submitters |-> <<"none", Wrap>>] /\ scan = [s \in Submitters |-> Workers]
        /\ executed = [j \in Jobs |-> 0] /\ stpc = <<0, "run">> /\ bad = FALSE
Dec(n) == IF n = 0 THEN Wrap ELSE n - 1
Inc(n) == IF n = Wrap THEN 0 ELSE n + 1
\* submitter: look at each worker's size in some order, take an idle one at once, else the least busy
Look(s, w) == /\ spc[s] = "choose" /\ w \in scan[s]
              /\ scan' = [scan EXCEPT ![s] = @ \ {w}]
              /\ LET b == IF size[w] < best[s][2] THEN <<w, size[w]>> ELSE best[s]
                     fin == size[w] = 0 \/ scan[s] = {w}
                 IN /\ best' = [best EXCEPT ![s] = b]
                    /\ spc' = [spc EXCEPT ![s] = IF fin THEN (IF CountFirst THEN "count" ELSE "push") ELSE "choose"]
                    /\ bad' = (bad \/ (fin /\ b[1] = "none"))
              /\ UNCHANGED <<queue, size, flag, wpc, cur, left, executed, stpc>>
Target(s) == best[s][1]
NextJob(s) == /\ left' = [left EXCEPT ![s] = @ + 1]
              /\ best' = [best EXCEPT ![s] = <<"none", Wrap>>] /\ scan' = [scan EXCEPT ![s] = Workers]
              /\ spc' = [spc EXCEPT ![s] = IF left[s] = JobsEach THEN "done" ELSE "choose"]
Count(s) == /\ spc[s] = "count" /\ Target(s) # "none"
            /\ size' = [size EXCEPT ![Target(s)] = Inc(@)]
            /\ IF CountFirst THEN spc' = [spc EXCEPT ![s] = "push"] /\ UNCHANGED <<left, best, scan>> ELSE NextJob(s)
            /\ UNCHANGED <<queue, flag, wpc, cur, executed, stpc, bad>>
Push(s) == /\ spc[s] = "push" /\ Target(s) # "none"
           /\ queue' = [queue EXCEPT ![Target(s)] = Append(@, <<s, left[s]>>)]
           /\ IF CountFirst THEN NextJob(s) ELSE spc' = [spc EXCEPT ![s] = "count"] /\ UNCHANGED <<left, best, scan>>
           /\ UNCHANGED <<size, flag, wpc, cur, executed, stpc, bad>>
\* worker thread
WGo(w, p) == wpc' = [wpc EXCEPT ![w] = p]
Begin(w) == /\ wpc[w] = "begin" /\ WGo(w, "pop")
            /\ flag' = IF FlagAtInit THEN flag ELSE [flag EXCEPT ![w] = TRUE]
            /\ UNCHANGED <<queue, size, cur, spc, left, best, scan, executed, stpc, bad>>
Pop(w) == /\ wpc[w] = "pop" /\ queue[w] # <<>>
          /\ cur' = [cur EXCEPT ![w] = Head(queue[w])] /\ queue' = [queue EXCEPT ![w] = Tail(@)]
          /\ WGo(w, "exec") /\ UNCHANGED <<size, flag, spc, left, best, scan, executed, stpc, bad>>
Exec(w) == /\ wpc[w] = "exec" /\ WGo(w, "dec")
           /\ executed' = IF cur[w] = Noop THEN executed ELSE [executed EXCEPT ![cur[w]] = @ + 1]
           /\ UNCHANGED <<queue, size, flag, cur, spc, left, best, scan, stpc, bad>>
Decr(w) == /\ wpc[w] = "dec" /\ size' = [size EXCEPT ![w] = Dec(@)] /\ WGo(w, "test")
           /\ UNCHANGED <<queue, flag, cur, spc, left, best, scan, executed, stpc, bad>>
Test(w) == /\ wpc[w] = "test" /\ WGo(w, IF flag[w] THEN "pop" ELSE "exit")
           /\ UNCHANGED <<queue, size, flag, cur, spc, left, best, scan, executed, stpc, bad>>
\* stopping thread: only after all submissions have returned
StopOrder == CHOOSE f \in [1..Cardinality(Workers) -> Workers] : \A i, j \in 1..Cardinality(Workers) : i # j => f[i] # f[j]
StopBegin == /\ Stops /\ stpc = <<0, "run">> /\ \A s \in Submitters : spc[s] = "done"
             /\ stpc' = <<1, "flag">> /\ UNCHANGED <<queue, size, flag, wpc, cur, spc, left, best, scan, executed, bad>>
StopFlag(i) == /\ stpc = <<i, "flag">> /\ flag' = [flag EXCEPT ![StopOrder[i]] = FALSE] /\ stpc' = <<i, "push">>
               /\ UNCHANGED <<queue, size, wpc, cur, spc, left, best, scan, executed, bad>>
StopPush(i) == /\ stpc = <<i, "push">> /\ queue' = [queue EXCEPT ![StopOrder[i]] = Append(@, Noop)]
               /\ stpc' = IF i = Cardinality(Workers) THEN <<0, "join">> ELSE <<i + 1, "flag">>
               /\ UNCHANGED <<size, flag, wpc, cur, spc, left, best, scan, executed, bad>>
Join == /\ stpc = <<0, "join">> /\ \A w \in Workers : wpc[w] = "exit" /\ stpc' = <<0, "stopped">>
        /\ UNCHANGED <<queue, size, flag, wpc, cur, spc, left, best, scan, executed, bad>>
SubmitStep(s) == (\E w \in Workers : Look(s, w)) \/ Count(s) \/ Push(s)
WorkStep(w) == Begin(w) \/ Pop(w) \/ Exec(w) \/ Decr(w) \/ Test(w)
StopStep == StopBegin \/ (\E i \in 1..Cardinality(Workers) : StopFlag(i) \/ StopPush(i)) \/ Join
Next == (\E s \in Submitters : SubmitStep(s)) \/ (\E w \in Workers : WorkStep(w)) \/ StopStep
Spec == Init /\ [][Next]_vars /\ (\A s \in Submitters : WF_vars(SubmitStep(s))) /\ (\A w \in Workers : WF_vars(WorkStep(w))) /\ WF_vars(StopStep)

AtMostOnce == \A j \in Jobs : executed[j] <= 1
AlwaysAChoice == ~bad
\* the sum over all workers' queues and hands never loses a job
Pending(j) == \E w \in Workers : (cur[w] = j /\ wpc[w] = "exec") \/ (\E k \in 1..Len(queue[w]) : queue[w][k] = j)
Submitted(j) == left[j[1]] > j[2]
NoneLost == \A j \in Jobs : Submitted(j) /\ stpc = <<0, "run">> => executed[j] = 1 \/ Pending(j)
QuietAfterStop == stpc = <<0, "stopped">> => \A w \in Workers : wpc[w] = "exit"
AllRun == \A j \in Jobs : <>(executed[j] = 1)
StopReturns == <>(stpc = <<0, "stopped">>)
Terminates == IF Stops THEN StopReturns ELSE AllRun
=============================================================================
