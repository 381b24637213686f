------------------------------ MODULE JointsGen ------------------------------
(* Histories of turning the two bodies of a joint about its axis: 1 and -1 are *)
(* a quarter turn of B, 2 and -2 of A, 0 is a step in place.  Turns come in    *)
(* runs of four, which wind the joint up.                                      *)
EXTENDS Joints, Json, IOUtils, CSV
CONSTANT Depth
VARIABLES hist, kind
gvars == <<ang, hist, kind>>
By(t) == CASE t = 0 -> 0 [] t = 1 -> 15708 [] t = -1 -> -15708 [] t = 2 -> -15708 [] t = -2 -> 15708
GInit == ang = 0 /\ hist = <<>> /\ kind \in {0, 1}
GNext == /\ Len(hist) < Depth
         /\ \E t \in IF Len(hist) % 4 # 0 THEN {hist[Len(hist)]} ELSE {-2, -1, 0, 1, 2} :
              hist' = Append(hist, t) /\ ang' = ang + By(t)
         /\ UNCHANGED kind
         /\ (Len(hist') = Depth => CSVWrite("%1$s", <<ToString(<<kind>> \o hist')>>, IOEnv.GEN_FILE))
GSpec == GInit /\ [][GNext]_gvars
Counted == ang \in {15708 * k : k \in -Depth..Depth}
=============================================================================
