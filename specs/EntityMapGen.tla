---------------------------- MODULE EntityMapGen ----------------------------
EXTENDS EntityMap, IOUtils, CSV
CONSTANT Depth
VARIABLE hist
Cmd(c, a, b) == hist' = Append(hist, <<c, a, b>>)
GNext == /\ Len(hist) < Depth
         /\ \/ \E a \in R, b \in L : Insert(a, b) /\ Cmd(1, a, b)
            \/ \E a \in R \cup L : (Erase(a) /\ Cmd(2, a, 0)) \/ (EraseLocal(a) /\ Cmd(3, a, 0))
            \/ \E m \in {2, 3} : pairs # {} /\ EraseIf({p \in pairs : (p[1] + (3 * p[2])) % m = 0}) /\ Cmd(4, m, 0)
            \/ (pairs # {} /\ Swap /\ Cmd(5, 0, 0))
            \/ (pairs # {} /\ Clear /\ Cmd(6, 0, 0))
         /\ (Len(hist') = Depth => CSVWrite("%1$s", <<ToString(hist')>>, IOEnv.GEN_FILE))
GSpec == Init /\ hist = <<>> /\ [][GNext]_<<pairs, hist>>
=============================================================================
