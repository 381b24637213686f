--------------------------- MODULE InputHistoryGen ---------------------------
EXTENDS Naturals, Sequences, TLC, IOUtils, CSV
CONSTANTS Depth
VARIABLES hist
Init == hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E c \in {<<1, 0, 0>>, <<2, 0, 0>>} \cup {<<3, t, 0>> : t \in 1..3} \cup {<<4, e, 0>> : e \in 1..2}
                    \cup {<<5, s, n>> : s \in 1..3, n \in 1..2} \cup {<<6, t, 0>> : t \in 1..2} :
             /\ (hist = <<>> => c[1] \in {1, 2})
             /\ hist' = Append(hist, c)
        /\ (Len(hist') = Depth => CSVWrite("%1$s", <<ToString(hist')>>, IOEnv.GEN_FILE))
Spec == Init /\ [][Next]_hist
=============================================================================
