----------------------------- MODULE IslandsGen -----------------------------
EXTENDS Islands, IOUtils, CSV
CONSTANT Depth
VARIABLES hist, ne
Cmd(c, a, b) == hist' = Append(hist, <<c, a, b>>)
KN == <<"d", "k">>
Upd == Len(hist) > 0 /\ hist[Len(hist)][1] # 5
GInit == kind = [b \in 1..3 |-> IF b < 3 THEN "d" ELSE "k"] /\ edges = <<>> /\ hist = <<>> /\ ne = 1
GNext == /\ Len(hist) < Depth
         /\ \/ \E a, b \in DOMAIN kind : /\ a < b /\ Link(ne, a, b, FALSE) /\ ne' = ne + 1 /\ Cmd(1, a, b)
                                         /\ Cardinality({c \in DOMAIN edges : Ends(c) = {a, b}}) < 2
            \/ \E c \in DOMAIN edges : Unlink(c) /\ UNCHANGED ne /\ Cmd(2, c, 0)
            \/ \E a \in DOMAIN kind : Del(a) /\ UNCHANGED ne /\ Cmd(3, a, 0)
            \/ \E a \in DOMAIN kind, k \in 1..2 : /\ KN[k] # kind[a] /\ Kind(a, KN[k]) /\ UNCHANGED ne /\ Cmd(4, a, k - 1)
            \/ (Upd /\ UNCHANGED <<kind, edges, ne>> /\ Cmd(5, 0, 0))
         /\ (Len(hist') = Depth => CSVWrite("%1$s", <<ToString(hist')>>, IOEnv.GEN_FILE))
GSpec == GInit /\ [][GNext]_<<ivars, hist, ne>>
=============================================================================
