----------------------------- MODULE FreeListGen -----------------------------
(* Enumerates every behaviour of FreeList up to Depth steps as a command      *)
(* sequence for the driver: <<code, arg>>. Indices are chosen by the code, so *)
(* commands name the k-th oldest live element instead.                       *)
EXTENDS Naturals, Sequences, TLC, IOUtils, CSV
CONSTANTS Depth
VARIABLES n, hist
Bursts == {1, 2, 16}
Init == n = 0 /\ hist = <<>>
Cmd(c, a) == hist' = Append(hist, <<c, a>>)
Ins(b) == n' = n + b /\ Cmd(1, b)
Rem(k) == n > 0 /\ n' = n - 1 /\ Cmd(2, k)
Mod(k) == n > 0 /\ n' = n /\ Cmd(3, k)
Clr    == n' = 0 /\ Cmd(4, 0)
Next == /\ Len(hist) < Depth
        /\ \/ \E b \in Bursts : Ins(b)
           \/ \E k \in {0, 1, 15} : (k = 0 \/ k < n) /\ Rem(k)
           \/ Mod(0)
           \/ Clr
        /\ (Len(hist') = Depth => CSVWrite("%1$s", <<ToString(hist')>>, IOEnv.GEN_FILE))
Spec == Init /\ [][Next]_<<n, hist>>
=============================================================================
