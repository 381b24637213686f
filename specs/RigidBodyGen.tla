---------------------------- MODULE RigidBodyGen ----------------------------
(* Every history of Depth commands on one body; the driver fills in the numbers (see drivers/rigidbody.cpp).     *)
EXTENDS RigidBody, IOUtils, CSV
CONSTANT Depth
VARIABLE hist
Cmd(c, a) == hist' = Append(hist, <<c, a>>)
KN == <<"d", "k", "s">>
B == body[1]
GInit == body = <<<<>>>> /\ hist = <<>>
Fresh(k, c, s) == [k |-> KN[k], pos |-> <<4, 400, 8>>, orn |-> 0, com |-> IF c = 1 THEN <<1, 2, 0>> ELSE Zero, lin |-> Zero, ang |-> Zero, turn |-> 0,
                   m |-> IF k = 1 THEN 1 ELSE 0, i |-> IF k = 1 THEN <<1, 2, 2, 0>> ELSE <<>>, shape |-> s, nosleep |-> FALSE, sl |-> "no"]
GNext == /\ Len(hist) < Depth
         /\ IF B = <<>> THEN \E k \in 1..3, c \in 0..1, s \in {0, 1, 3} : Make(1, Fresh(k, c, s)) /\ Cmd(1, 100 * k + 10 * c + s)
            ELSE \/ Clear(1) /\ Cmd(2, 0)
                 \/ \E k \in 1..3 : KN[k] # B.k /\ (k = 1 => B.m > 0) /\ Kind(1, KN[k]) /\ Cmd(3, k)
                 \/ B.m = 0 /\ body' = [body EXCEPT ![1] = [@ EXCEPT !.m = 1, !.i = <<1, 2, 2, 0>>]] /\ Cmd(4, 0)
                 \/ B.turn = 0 /\ \E c \in 0..1 : Com(1, IF c = 1 THEN <<0, 1, 1>> ELSE Zero) /\ Cmd(5, c)
                 \/ B.sl # "yes" /\ B.k = "d" /\ Impulse(1, <<2, 0, 0>>, <<0, 1, 0>>) /\ Cmd(6, 0)
                 \/ B.k = "k" /\ KinPos(1, Add(B.pos, <<3, 0, 0>>)) /\ Cmd(7, 0)
                 \/ B.k = "k" /\ \E q \in {0, 1} : KinOrn(1, (B.orn + q) % 4) /\ Cmd(8, q)
                 \/ \E s \in {0, 2} : s # B.shape /\ Shape(1, s) /\ Cmd(9, s)
                 \/ (B.k = "d" => B.ang = Zero /\ B.turn = 0) /\ \E n \in {1, 12} : Step(n) /\ Cmd(10, n)
         /\ (Len(hist') = Depth => CSVWrite("%1$s", <<ToString(hist')>>, IOEnv.GEN_FILE))
GSpec == GInit /\ [][GNext]_<<body, hist>>
=============================================================================
