--------------------------- MODULE BroadphaseGen ---------------------------
(* Every history of Depth commands over two dynamic bodies and a kinematic one on a line of three places.      *)
EXTENDS Broadphase, IOUtils, CSV
CONSTANT Depth
VARIABLE hist
Cmd(c, a, b) == hist' = Append(hist, <<c, a, b>>)
\* the places are 18, 24 and 60 thousandths apart from the first body's box
Lo(i) == <<0, 1018, 1024, 1060>>[i]
Box(i) == <<<<Lo(i), 0, 0>>, <<Lo(i) + 1000, 1000, 1000>>>>
KN == <<"d", "k">>
Awake(a) == ~body[a].sl
GInit == /\ body = [a \in 1..3 |-> Fresh(IF a < 3 THEN "d" ELSE "k", Box(IF a < 3 THEN a ELSE 4), {1}, {1})]
         /\ ex = {} /\ man = <<>> /\ tree = <<>> /\ hist = <<>>
GNext == /\ Len(hist) < Depth
         /\ \/ Update /\ Cmd(1, 0, 0) /\ (hist = <<>> \/ hist[Len(hist)][1] # 1)
            \/ \E a \in DOMAIN body \cap {2}, i \in 1..4 : /\ body[a].box # <<>> /\ body[a].box # Box(i)
                                                       /\ Move(a, Box(i)) /\ Cmd(2, a, i)
            \/ \E a \in DOMAIN body : Del(a) /\ Cmd(3, a, 0)
            \/ \E a \in DOMAIN body \ {1}, k \in 1..2 : KN[k] # body[a].k /\ Kind(a, KN[k]) /\ Cmd(4, a, k - 1)
            \/ \E a \in DOMAIN body \cap {1} : Shape(a, IF body[a].box = <<>> THEN Box(2) ELSE <<>>) /\ Cmd(5, a, IF body[a].box = <<>> THEN 2 ELSE 0)
            \/ Exclude(1, 2) /\ {1, 2} \notin ex /\ {1, 2} \subseteq DOMAIN body /\ Cmd(6, 1, 2)
            \/ \E p \in DOMAIN man : man[p] = 0 /\ Point(p, 1)
                  /\ LET a == CHOOSE a \in p : \A b \in p : a <= b IN Cmd(7, a, CHOOSE b \in p : b # a)
         /\ (Len(hist') = Depth => CSVWrite("%1$s", <<ToString(hist')>>, IOEnv.GEN_FILE))
GSpec == GInit /\ [][GNext]_<<bvars, hist>>
=============================================================================
