------------------------------- MODULE JointsMC -------------------------------
(* The rows of the specification are mechanics: every joint acts and reacts,   *)
(* may always do nothing, leaves rigid motions of the pair and its own free    *)
(* motion alone, and pushes its coordinate back only the right way.  Checked   *)
(* over a grid of scenes, with the pair wound up and down by quarter turns.    *)
EXTENDS Joints
CONSTANT Turns
VARIABLE sc
Qx == << <<1, 0, 0>>, <<0, 0, -1>>, <<0, 1, 0>> >>      \* a quarter turn about x
Qz == << <<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>> >>
Id == << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
MM(M, N) == [i \in 1..3 |-> [j \in 1..3 |-> Dot3(M[i], Col(N, j))]]
Mk(M) == [i \in 1..3 |-> Scale(5, M[i])]
Params == [on : {TRUE}, mn : {-20011}, mx : {0 - 20011, 9000, 40000}, re : {0, 2}, bl : {2500}, bs : {0, 3}, fr : {0, 2}, ra : {5000},
           st : {0, 4}, da : {0, 1}, sp : {0}, rd : {<<1, 0, 0>>}, bk : {0}, bf : {0}, bd : {1}]
Scenes == {[k |-> k, A |-> [p |-> <<5, 0, -5>>, c |-> ca, R |-> Mk(R), v |-> <<0, 0, 0>>, w |-> <<0, 0, 0>>],
            B |-> [p |-> <<0, 0, 0>>, c |-> <<0, 0, 0>>, R |-> Mk(R), v |-> <<0, 0, 0>>, w |-> <<0, 0, 0>>],
            pa |-> pa, pb |-> <<0, 1, -1>>, fa |-> Id, fb |-> Id, q |-> q] :
            k \in {"hinge", "cv"}, ca \in {<<0, 0, 0>>, <<0, 1, 0>>}, R \in {Id, Qz}, pa \in {<<1, 0, 2>>}, q \in Params}
Dof(f, t) == [on |-> TRUE, mn |-> -f, mx |-> f * t, re |-> 0, bl |-> f \div 2, bs |-> 2, fr |-> 1, ra |-> 0, st |-> 3, da |-> 1]
Sliders == {[k |-> "generic", A |-> [p |-> <<5, 0, -5>>, c |-> ca, R |-> Mk(R), v |-> Zero3, w |-> Zero3],
             B |-> [p |-> Scale(5, pb), c |-> Zero3, R |-> Mk(R), v |-> Zero3, w |-> Zero3],
             pa |-> <<1, 0, 2>>, pb |-> <<0, 1, -1>>, fa |-> Id, fb |-> Id,
             q |-> [mn |-> 0, mx |-> 0, st |-> 1, an |-> Zero3, l |-> <<Dof(5, t), Dof(5, 2), Dof(5, 0 - 1)>>, r |-> <<Dof(10000, t), Dof(9000, 2), Dof(9000, 1)>>]] :
             ca \in {Zero3, <<0, 1, 0>>}, R \in {Id, Qz}, pb \in {<<2, 0, 0>>, <<0, -1, 3>>, <<-4, 2, 1>>}, t \in {-1, 2}}
(* Put B so that the pivots meet.                                              *)
Joined(s) == IF s.k = "generic" THEN s ELSE [s EXCEPT !.B.p = Sub(PA(s), RB(s))]
Init == ang = 0 /\ sc \in {Joined(s) : s \in Scenes \cup Sliders}
TurnB(t) == LET R == IF t = 1 THEN MM(sc.B.R, Qx) ELSE MM(sc.B.R, << <<1, 0, 0>>, <<0, 0, 1>>, <<0, -1, 0>> >>)
            IN sc' = (IF sc.k = "generic" THEN [sc EXCEPT !.B.R = R, !.q.an[1] = @ + 15708 * t] ELSE Joined([sc EXCEPT !.B.R = R])) /\ ang' = ang + 15708 * t
Next == \E t \in {-1, 1} : Abs(ang + 15708 * t) <= 15708 * Turns /\ TurnB(t)
Spec == Init /\ [][Next]_<<sc, ang>>

RowsNow == Range(Expected(sc, ang))
Moving(s, t, w) == [s EXCEPT !.A.v = Add(t, Div(Cross3(w, s.A.p), 5)), !.A.w = w, !.B.v = Add(t, Div(Cross3(w, s.B.p), 5)), !.B.w = w]
Motions == {<<t, w>> : t \in {<<0, 0, 0>>, <<1, -2, 3>>}, w \in {<<0, 0, 0>>, <<1, 0, 0>>, <<2, -1, 3>>}}
ActsAndReacts == \A r \in RowsNow :
  /\ r.J.j2 = Neg(r.J.j0)
  /\ Add(Add(Cross3(sc.A.p, r.J.j0), Scale(5, r.J.j1)), Add(Cross3(sc.B.p, r.J.j2), Scale(5, r.J.j3))) = Zero3
MayDoNothing == \A r \in RowsNow : r.lo <= 0 /\ 0 <= r.hi
RigidMotionFree == \A m \in Motions : \A r \in RowsNow : Rate(Moving(sc, m[1], m[2]), r.J) = 0
(* The hinge turns freely: B about the axis through the pivot.                 *)
HingeFree == sc.k = "hinge" /\ sc.q.mn >= sc.q.mx /\ sc.q.st = 0 =>
  LET w == Div(FA(sc, 1), 5)
      s == [sc EXCEPT !.B.w = w, !.B.v = Neg(Div(Cross3(w, RB(sc)), 5))]
  IN \A r \in RowsNow : r.hi >= INF => Rate(s, r.J) = 0
(* Turning faster makes the coordinate grow, against every one-sided row that  *)
(* could stop it.                                                              *)
PushesBack == sc.q.mn < sc.q.mx =>
  LET rows == Expected(sc, ang) lim == SelectSeq(rows, LAMBDA r : r.J.j0 = Zero3 /\ (r.lo = 0 \/ r.hi = 0) /\ (r.lo # 0 \/ r.hi # 0))
  IN \A i \in DOMAIN lim :
       LET r == lim[i] IN
       /\ r.hi >= INF => ang > sc.q.mn /\ (ang >= sc.q.mx => r.err <= 0)
       /\ r.lo <= -INF => ang < sc.q.mx /\ (ang <= sc.q.mn => r.err >= 0)
       /\ r.hi > 0 /\ r.hi < INF => r.err < 0        \* springs only go as far as they are deflected
       /\ r.lo < 0 /\ r.lo > -INF => r.err > 0
=============================================================================
