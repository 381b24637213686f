---------------------------- MODULE StepperTrace ----------------------------
EXTENDS Stepper, TraceBase
VARIABLE mode
\* what the code shows after an update: the steps it ran, where the bodies are and where they are shown
Has(f) == f \in DOMAIN E
Seen(n, a, v, b) == E.exact /\ E.steps = n /\ E.post = n /\ E.pa = a /\ E.vb = v /\ E.pb = b
TReset == IsEvent("reset") /\ SReset(E.dt, E.max) /\ mode' = E.mode
TUpdate == /\ IsEvent("update") /\ Update(E.t) /\ Seen(steps', pa', vb', pb')
           /\ (Has("sim") => E.sim = SimTime')
           /\ (Has("qa") => E.qa = ShownA' /\ E.qb = ShownB') /\ (mode < 2 => Has("qa")) /\ UNCHANGED mode
TManual == IsEvent("manual") /\ Manual(E.t) /\ Seen(steps', pa', vb', pb') /\ (Has("sim") => E.sim = SimTime') /\ UNCHANGED mode
TPause == IsEvent("pause") /\ Pause(E.p) /\ E.is = E.p /\ UNCHANGED mode
TDt == IsEvent("dt") /\ SetDt(E.dt) /\ E.is = E.dt /\ UNCHANGED mode
TMax == IsEvent("max") /\ SetMax(E.max) /\ E.is = E.max /\ UNCHANGED mode
TraceSpec == /\ now = 0 /\ acc = 0 /\ paused = FALSE /\ resumed = FALSE /\ dt = 1 /\ max = 1 /\ pa = 0 /\ vb = 0 /\ pb = 0
             /\ steps = 0 /\ mode = 0 /\ l = 1
             /\ [][TReset \/ TUpdate \/ TManual \/ TPause \/ TDt \/ TMax]_<<svars, mode, l>>
=============================================================================
