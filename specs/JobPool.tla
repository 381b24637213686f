------------------------------- MODULE JobPool -------------------------------
(* What a user of the worker pool observes (C01, C02).                        *)
(*   phase    "off" -> "starting" -> "on" -> "stopping" -> "off"              *)
(*   nworkers workers asked for                                              *)
(*   subs     submitted jobs of this start: job -> payload                   *)
(*   before   job -> jobs whose submission had returned when it was submitted *)
(*   settled  jobs whose submission has returned                             *)
(*   active   thread -> job it is running                                    *)
(*   ran      jobs that have begun to run                                    *)
(*   used     threads that have run jobs since the start                     *)
EXTENDS Naturals, FiniteSets, Sequences, TLC
VARIABLES phase, nworkers, subs, before, settled, active, ran, used
vars == <<phase, nworkers, subs, before, settled, active, ran, used>>
Fn == [x \in {} |-> 0]
Init == /\ phase = "off" /\ nworkers = 0 /\ subs = Fn /\ before = Fn /\ settled = {}
        /\ active = Fn /\ ran = {} /\ used = {}
Start(n) == /\ phase = "off" /\ n > 0
            /\ phase' = "starting" /\ nworkers' = n
            /\ subs' = Fn /\ before' = Fn /\ settled' = {} /\ active' = Fn /\ ran' = {} /\ used' = {}
Started == phase = "starting" /\ phase' = "on" /\ UNCHANGED <<nworkers, subs, before, settled, active, ran, used>>
Submit(j, s) == /\ phase \in {"on", "stopping"} /\ j \notin DOMAIN subs
                /\ subs' = (j :> s) @@ subs
                /\ before' = (j :> settled) @@ before
                /\ UNCHANGED <<phase, nworkers, settled, active, ran, used>>
Submitted(j) == /\ j \in DOMAIN subs /\ j \notin settled
                /\ settled' = settled \cup {j}
                /\ UNCHANGED <<phase, nworkers, subs, before, active, ran, used>>
\* A worker begins job j: once, with the payload given, one job at a time per worker, and with a
\* single worker only after everything submitted earlier.
Run(t, j, s) == /\ phase \in {"on", "stopping"}
                /\ j \in DOMAIN subs /\ j \notin ran /\ subs[j] = s
                /\ t \notin DOMAIN active
                /\ (nworkers = 1 => before[j] \subseteq ran)
                /\ Cardinality(used \cup {t}) <= nworkers
                /\ active' = (t :> j) @@ active
                /\ ran' = ran \cup {j} /\ used' = used \cup {t}
                /\ UNCHANGED <<phase, nworkers, subs, before, settled>>
End(t, j) == /\ t \in DOMAIN active /\ active[t] = j
             /\ active' = [x \in DOMAIN active \ {t} |-> active[x]]
             /\ UNCHANGED <<phase, nworkers, subs, before, settled, ran, used>>
\* Nothing can make a step any more: every submitted job has run to its end.
Idle == /\ phase = "on" /\ DOMAIN subs = ran /\ DOMAIN active = {} /\ settled = DOMAIN subs
        /\ UNCHANGED vars
StopCall == /\ phase \in {"on", "off"}
            /\ phase' = IF phase = "on" THEN "stopping" ELSE "off"
            /\ UNCHANGED <<nworkers, subs, before, settled, active, ran, used>>
\* When stop has returned nothing is running, and nothing runs until the next start.
Stopped == /\ phase \in {"stopping", "off"} /\ DOMAIN active = {}
           /\ phase' = "off" /\ nworkers' = 0
           /\ UNCHANGED <<subs, before, settled, active, ran, used>>
Observe(running, n) == /\ running = (phase = "on") /\ n = nworkers
                       /\ UNCHANGED vars
=============================================================================
