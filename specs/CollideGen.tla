----------------------------- MODULE CollideGen -----------------------------
EXTENDS Collide, IOUtils, CSV
CONSTANTS Depth, N
VARIABLE hist
Presets == <<All, [g |-> {63}, m |-> {0, 1}], [g |-> {0, 32}, m |-> {63}]>>
Cmd(c, a, b) == hist' = Append(hist, <<c, a, b>>)
GInit == filter = [b \in 1..N |-> All] /\ excl = {} /\ hist = <<>>
GNext == /\ Len(hist) < Depth
         /\ \/ \E a \in Bodies, k \in DOMAIN Presets : filter[a] # Presets[k] /\ SetFilter(a, Presets[k]) /\ Cmd(1, a, k)
            \/ \E a, b \in Bodies : \/ (Exclude(a, b) /\ Cmd(2, a, b))
                                    \/ (Remove(a, b) /\ Cmd(3, a, b))
            \/ \E a \in Bodies : \/ ((\E p \in excl : a \in p) /\ Clear(a) /\ Cmd(4, a, 0))
                                 \/ (Destroy(a) /\ Cmd(5, a, 0))
         /\ (Len(hist') = Depth => CSVWrite("%1$s", <<ToString(hist')>>, IOEnv.GEN_FILE))
GSpec == GInit /\ [][GNext]_<<cvars, hist>>
=============================================================================
