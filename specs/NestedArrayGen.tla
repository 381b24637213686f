---------------------------- MODULE NestedArrayGen ----------------------------
EXTENDS Naturals, Sequences, TLC, IOUtils, CSV
CONSTANTS Depth
VARIABLE hist
Init == hist = <<1>>
Next == /\ Len(hist) < Depth
        /\ \E c \in 1..2 : hist' = Append(hist, c)
        /\ (Len(hist') = Depth => CSVWrite("%1$s", <<ToString(hist')>>, IOEnv.GEN_FILE))
Spec == Init /\ [][Next]_hist
=============================================================================
