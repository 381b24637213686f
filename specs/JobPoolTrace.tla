----------------------------- MODULE JobPoolTrace -----------------------------
(* Events of the controlled scheduler that report a deadlock, a crash, a data *)
(* race or an access to destroyed memory have no action here: never accepted. *)
EXTENDS JobPool, TraceBase
TReset == /\ IsEvent("reset") /\ phase' = "off" /\ nworkers' = 0 /\ subs' = Fn /\ before' = Fn
          /\ settled' = {} /\ active' = Fn /\ ran' = {} /\ used' = {}
TNext == \/ TReset
         \/ IsEvent("start") /\ Start(E.n)
         \/ IsEvent("started") /\ Started
         \/ IsEvent("sub") /\ Submit(E.j, E.s)
         \/ IsEvent("subr") /\ Submitted(E.j)
         \/ IsEvent("run") /\ Run(E.t, E.j, E.s)
         \/ IsEvent("end") /\ End(E.t, E.j)
         \/ IsEvent("idle") /\ Idle
         \/ IsEvent("stop") /\ StopCall
         \/ IsEvent("stopped") /\ Stopped
         \/ IsEvent("obs") /\ Observe(E.run, E.n)
         \/ IsEvent("fin") /\ phase = "off" /\ UNCHANGED vars
TraceInit == Init /\ l = 1
TraceSpec == TraceInit /\ [][TNext]_<<vars, l>>
=============================================================================
