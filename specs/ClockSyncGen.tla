----------------------------- MODULE ClockSyncGen -----------------------------
(* Short histories: <<1,dt>> time passes and update runs; <<2,k,dt,skew>> the *)
(* k-th last request is answered after dt.                                    *)
EXTENDS Naturals, Sequences, TLC, IOUtils, CSV
CONSTANTS Depth
VARIABLES hist
Init == hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \/ \E t \in {0, 60, 141} : hist' = Append(hist, <<1, 0, t, 0>>)
           \/ \E k \in 0..1, t \in {100, 110, 112}, s \in {0, 30} :
                 hist # <<>> /\ (k = 1 => t = 100 /\ s = 0) /\ (t = 112 => s = 0) /\ hist' = Append(hist, <<2, k, t, s>>)
        /\ (Len(hist') = Depth => CSVWrite("%1$s", <<ToString(hist')>>, IOEnv.GEN_FILE))
Spec == Init /\ [][Next]_hist
=============================================================================
