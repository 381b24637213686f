----------------------------- MODULE StepperMC -----------------------------
EXTENDS Stepper
CONSTANT MaxTime
VARIABLES ran, base, capped, prev
mc == <<svars, ran, base, capped, prev>>
MInit == /\ now = 0 /\ acc = 0 /\ paused = FALSE /\ resumed = FALSE /\ dt = 2 /\ max = 2
         /\ pa = 0 /\ vb = 0 /\ pb = 0 /\ steps = 0 /\ ran = 0 /\ base = 0 /\ capped = FALSE /\ prev = "init"
MNext == \/ \E t \in now..MaxTime : /\ Update(t)
                                    /\ ran' = IF paused THEN ran ELSE IF resumed THEN 0 ELSE ran + steps'
                                    /\ base' = IF ~paused /\ resumed THEN t ELSE base
                                    /\ capped' = IF ~paused /\ resumed THEN FALSE ELSE capped \/ (~paused /\ acc + t - now >= (max + 1) * dt)
                                    /\ prev' = IF paused THEN "paused" ELSE "update"
         \/ \E p \in BOOLEAN \ {paused} : Pause(p) /\ ran' = 0 /\ base' = now /\ capped' = FALSE /\ prev' = "pause"
         \/ \E t \in now..MaxTime : Manual(t) /\ prev' = "manual" /\ ran' = 0 /\ base' = t /\ capped' = FALSE
MSpec == MInit /\ [][MNext]_mc
\* no time is lost nor counted twice while running uncapped: what was simulated is what has passed, up to less than a step
NoDrift == (~paused /\ ~resumed /\ ~capped) => (ran * dt <= now - base /\ now - base < (ran + 1) * dt)
Bounded == steps <= max
PausedStill == prev = "paused" => steps = 0
ManualOne == prev = "manual" => steps = 1
TimeInRange == acc >= 0 /\ acc < dt
\* what is shown is exactly the state one step ago: A has moved as long as it has been simulated
Small == pa < 14
Shown == prev = "update" => ShownA = pa + acc - dt
=============================================================================
