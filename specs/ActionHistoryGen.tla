--------------------------- MODULE ActionHistoryGen ---------------------------
EXTENDS Naturals, Sequences, TLC, IOUtils, CSV
CONSTANTS Depth
VARIABLES hist, sent
TS == <<1, 2, 2, 3, 4>>
Whole(a, b) == /\ (a > 1 => TS[a - 1] # TS[a])
               /\ (b < 5 => TS[b + 1] # TS[b])
Init == hist = <<>> /\ sent = 0
Next == /\ Len(hist) < Depth
        /\ \/ \E a, b \in 1..5 : /\ a <= b /\ a <= sent + 1 /\ Whole(a, b)
                                 /\ sent' = (IF b > sent THEN b ELSE sent)
                                 /\ hist' = Append(hist, <<1, a, b>>)
           \/ \E t \in 1..5 : sent > 0 /\ hist' = Append(hist, <<2, t, 0>>) /\ UNCHANGED sent
        /\ (Len(hist') = Depth => CSVWrite("%1$s", <<ToString(hist')>>, IOEnv.GEN_FILE))
Spec == Init /\ [][Next]_<<hist, sent>>
=============================================================================
