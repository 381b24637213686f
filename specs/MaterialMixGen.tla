---------------------------- MODULE MaterialMixGen ----------------------------
EXTENDS Naturals, Sequences, TLC, IOUtils, CSV
CONSTANTS Depth
VARIABLES hist
Ids == 0..2
Init == hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E c \in 1..2, a \in Ids, b \in Ids :
              /\ (c = 2 => \E k \in 1..Len(hist) : {hist[k][2], hist[k][3]} = {a, b})
              /\ hist' = Append(hist, <<c, a, b>>)
        /\ (Len(hist') = Depth => CSVWrite("%1$s", <<ToString(hist')>>, IOEnv.GEN_FILE))
Spec == Init /\ [][Next]_hist
=============================================================================
