------------------------------- MODULE SolverGen -------------------------------
(* Orders of solver operations: every sequence of row, friction and spin solves *)
(* and changes of a row's limits (5), as limits follow other impulses.          *)
EXTENDS Naturals, Sequences, TLC, IOUtils, CSV
CONSTANTS Depth
VARIABLES hist
Init == hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E k \in 1..5 : hist' = Append(hist, k)
        /\ (Len(hist') = Depth => CSVWrite("%1$s", <<ToString(hist')>>, IOEnv.GEN_FILE))
Spec == Init /\ [][Next]_hist
=============================================================================
