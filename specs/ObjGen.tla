-------------------------------- MODULE ObjGen --------------------------------
(* Files as sequences of line groups: 0 object, 1 three vertices, 2 coloured   *)
(* vertex, 3 triangle, 4 polygon, 5 comment, 6 other keyword, 7 bare line.     *)
EXTENDS Naturals, Sequences, TLC, IOUtils, CSV
CONSTANTS Depth
VARIABLES hist, own
Init == hist = <<>> /\ own = 0
Next == /\ Len(hist) < Depth
        /\ \E k \in 0..7 :
            /\ (k = 3 => own >= 3) /\ (k = 4 => own >= 4)
            /\ own' = CASE k = 0 -> 0 [] k = 1 -> own + 3 [] k = 2 -> own + 1 [] OTHER -> own
            /\ hist' = Append(hist, k)
        /\ (Len(hist') = Depth => CSVWrite("%1$s", <<ToString(hist')>>, IOEnv.GEN_FILE))
Spec == Init /\ [][Next]_<<hist, own>>
=============================================================================
