----------------------------- MODULE StepperGen -----------------------------
(* Every history of Depth commands over updates after little, one step's, several steps' and too much time,     *)
(* pauses and manual steps.                                                                                     *)
EXTENDS Stepper, IOUtils, CSV, TLC
CONSTANT Depth
VARIABLE hist
Cmd(c, a) == hist' = Append(hist, <<c, a>>)
GInit == /\ now = 0 /\ acc = 0 /\ paused = FALSE /\ resumed = FALSE /\ dt = 4 /\ max = 2
         /\ pa = 0 /\ vb = 0 /\ pb = 0 /\ steps = 0 /\ hist = <<>>
GNext == /\ Len(hist) < Depth
         /\ \/ \E d \in {3, 5, 14} : Update(now + d) /\ Cmd(1, d)
            \/ \E p \in BOOLEAN : p # paused /\ Pause(p) /\ Cmd(2, IF p THEN 1 ELSE 0)
            \/ Manual(now + 3) /\ Cmd(3, 3)
            \/ \E d \in {2, 8} : d # dt /\ SetDt(d) /\ Cmd(4, d)
         /\ (Len(hist') = Depth => CSVWrite("%1$s", <<ToString(hist')>>, IOEnv.GEN_FILE))
GSpec == GInit /\ [][GNext]_<<svars, hist>>
=============================================================================
