--------------------------- MODULE ModifiedCompsGen ---------------------------
EXTENDS Naturals, Sequences, TLC, IOUtils, CSV
CONSTANTS Depth
VARIABLES hist
Init == hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \/ \E i \in 0..2 : hist' = Append(hist, <<1, i>>)
           \/ \E t \in {0, 1, 200, 399, 400, 401} : hist # <<>> /\ hist' = Append(hist, <<2, t>>)
        /\ (Len(hist') = Depth => CSVWrite("%1$s", <<ToString(hist')>>, IOEnv.GEN_FILE))
Spec == Init /\ [][Next]_hist
=============================================================================
