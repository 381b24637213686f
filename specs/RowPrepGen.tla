------------------------------ MODULE RowPrepGen ------------------------------
(* Every preparation history up to Depth commands; consumption follows it.    *)
EXTENDS Naturals, Sequences, TLC, IOUtils, CSV
CONSTANTS Depth
VARIABLES hist, inlast, fl
Init == hist = <<>> /\ inlast = 0 /\ fl = {}
Do(c) == hist' = Append(hist, c)
Next == /\ Len(hist) < Depth
        /\ \/ Do(1) /\ inlast' = 0 /\ fl' = {}
           \/ hist # <<>> /\ Do(2) /\ inlast' = inlast + 1 /\ fl' = {}
           \/ inlast > 0 /\ \E c \in 3..6 : c \notin fl /\ Do(c) /\ fl' = fl \cup {c} /\ UNCHANGED inlast
        /\ (Len(hist') = Depth => CSVWrite("%1$s", <<ToString(hist')>>, IOEnv.GEN_FILE))
Spec == Init /\ [][Next]_<<hist, inlast, fl>>
=============================================================================
