---------------------------- MODULE ReplicationGen ----------------------------
(* Orders of edits, batches and losses: every sequence of commands.             *)
EXTENDS Naturals, Sequences, TLC, IOUtils, CSV
CONSTANTS Depth
VARIABLES hist
Init == hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E k \in 1..11 : hist' = Append(hist, k)
        /\ (Len(hist') = Depth => CSVWrite("%1$s", <<ToString(hist')>>, IOEnv.GEN_FILE))
Spec == Init /\ [][Next]_hist
=============================================================================
