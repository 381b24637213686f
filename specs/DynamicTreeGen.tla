--------------------------- MODULE DynamicTreeGen ---------------------------
(* Every history of Depth steps after creating Start leaves in a row: create  *)
(* at a place, move the k-th leaf by a step, destroy the k-th, clear.         *)
EXTENDS Naturals, Sequences, TLC, IOUtils, CSV
CONSTANTS Depth, Starts
VARIABLES n, hist
Cmd(c, a, b) == hist' = Append(hist, <<c, a, b>>)
Ks == {k \in {0, 1, n \div 2, n - 1} : k < n}
Init == \E s \in Starts : n = s /\ hist = <<<<0, s, 0>>>>
Next == /\ Len(hist) <= Depth
        /\ \/ \E p \in {0, 1, 2} : n' = n + 1 /\ Cmd(1, p, 0)
           \/ n > 0 /\ \E k \in Ks : \/ n' = n - 1 /\ Cmd(3, k, 0)
                                     \/ \E p \in {0, 1} : n' = n /\ Cmd(2, k, p)
           \/ n > 0 /\ n' = 0 /\ Cmd(4, 0, 0)
        /\ (Len(hist') = Depth + 1 => CSVWrite("%1$s", <<ToString(hist')>>, IOEnv.GEN_FILE))
Spec == Init /\ [][Next]_<<n, hist>>
=============================================================================
