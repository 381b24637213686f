------------------------------- MODULE Stepper -------------------------------
(* How simulated time follows the time given by the caller.  Time is counted in ticks; the simulation advances *)
(* in whole steps of `dt` ticks, at most `max` of them per update (time beyond that passes without being         *)
(* simulated, each step still being one of `dt`).  A is a body that moves one unit per tick, B one that          *)
(* accelerates by one unit per tick.                                                                            *)
EXTENDS Integers, Sequences
VARIABLES now, acc, paused, resumed, dt, max, pa, vb, pb, steps
svars == <<now, acc, paused, resumed, dt, max, pa, vb, pb, steps>>

SReset(d, m) == /\ now' = 0 /\ acc' = 0 /\ paused' = FALSE /\ resumed' = FALSE /\ dt' = d /\ max' = m
                /\ pa' = 0 /\ vb' = 0 /\ pb' = 0 /\ steps' = 0

\* n steps: velocities change first, then positions with the new velocities
Steps(n) == /\ steps' = n
            /\ pa' = pa + n * dt
            /\ vb' = vb + n * dt
            /\ pb' = pb + dt * (n * vb + dt * ((n * (n + 1)) \div 2))
Least(a, b) == IF a < b THEN a ELSE b
Update(t) == /\ t >= now
             /\ IF paused THEN Steps(0) /\ UNCHANGED <<now, acc, resumed>>
                ELSE LET total == acc + (IF resumed THEN 0 ELSE t - now)   \* time starts counting again at the first update after a pause
                     IN /\ Steps(Least(total \div dt, max))
                        /\ acc' = total % dt /\ now' = t /\ resumed' = FALSE
             /\ UNCHANGED <<paused, dt, max>>
\* pausing or resuming again has no specified effect on the time that is counted since the last update
Pause(p) == /\ paused' = p /\ steps' = 0
            /\ acc' \in (IF p = paused THEN {0, acc} ELSE {0})
            /\ resumed' \in (IF p THEN {FALSE} ELSE IF paused THEN {TRUE} ELSE {resumed, TRUE})
            /\ UNCHANGED <<now, dt, max, pa, vb, pb>>
Manual(t) == paused /\ t >= now /\ now' = t /\ Steps(1) /\ UNCHANGED <<acc, paused, resumed, dt, max>>
SetDt(d) == dt' = d /\ steps' = 0 /\ UNCHANGED <<now, acc, paused, resumed, max, pa, vb, pb>>
SetMax(m) == max' = m /\ steps' = 0 /\ UNCHANGED <<now, acc, paused, resumed, dt, pa, vb, pb>>

SimTime == now - acc
\* bodies are shown where they were one step ago, or where they are while paused
ShownA == IF paused THEN pa ELSE pa + Least(acc - dt, dt)
ShownB == IF paused THEN pb ELSE pb + vb * Least(acc - dt, dt)
=============================================================================
