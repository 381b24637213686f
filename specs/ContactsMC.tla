----------------------------- MODULE ContactsMC -----------------------------
(* A contact of the specification acts and reacts, leaves the pair's rigid     *)
(* motions alone, never pulls, and its points share one spring: checked while  *)
(* a body sinks into another and comes out again.                              *)
EXTENDS Contacts
VARIABLE sc
Id5 == << <<5, 0, 0>>, <<0, 5, 0>>, <<0, 0, 5>> >>
R345 == << <<4, -3, 0>>, <<3, 4, 0>>, <<0, 0, 5>> >>
Start0 == {[k |-> k, A |-> [p |-> <<5, 0, -5>>, c |-> ca, R |-> R, v |-> v, w |-> w], B |-> [p |-> <<0, 3, 1>>, c |-> Zero3, R |-> Id5, v |-> Zero3, w |-> <<0, 1, 0>>],
            pa |-> <<1, 0, 2>>, pb |-> <<0, 1, -1>>, n |-> n, q |-> [dist |-> 4, st |-> st, da |-> da, np |-> np, mu |-> 1, re |-> 0, sp |-> 0, ro |-> 0]] :
            k \in {"contact", "extras"}, ca \in {Zero3, <<0, 1, 0>>}, R \in {Id5, R345}, v \in {Zero3, <<0, 3, 0>>, <<1, -2, 0>>}, w \in {Zero3, <<2, 0, -1>>},
            n \in {<<0, 5, 0>>, <<3, 4, 0>>, <<0, -4, 3>>}, st \in {0, 7}, da \in {0, 3}, np \in {1, 4}}
Init == ang = 0 /\ imp = Fresh /\ sc \in {[s EXCEPT !.B.p = Sub(Sub(PA(s), s.n), RB(s))] : s \in Start0}     \* A's pivot is ahead of B's along the normal
Next == \E d \in {-1, 1} : sc.q.dist + d \in -6..4 /\ sc' = [sc EXCEPT !.q.dist = @ + d] /\ UNCHANGED <<ang, imp>>
Spec == Init /\ [][Next]_<<sc, ang, imp>>
J == NormalJ(sc)
ActsAndReacts == J.j2 = Neg(J.j0) /\ NearV(Add(Add(Cross3(sc.A.p, J.j0), Scale(5, J.j1)), Add(Cross3(sc.B.p, J.j2), Scale(5, J.j3))), Zero3, 10)
Moving(s, t, w) == [s EXCEPT !.A.v = Add(t, Div(Cross3(w, Scale(5, s.A.p)), 25)), !.A.w = w, !.B.v = Add(t, Div(Cross3(w, Scale(5, s.B.p)), 25)), !.B.w = w]
RigidMotionFree == Abs(Rate(Moving(sc, <<1, -2, 3>>, <<5, 0, -10>>), J)) <= 40
NeverPulls == SoftImpulse(sc) >= 0
DeeperIsStiffer == Soft(sc) => SoftImpulse([sc EXCEPT !.q.dist = @ - 1]) >= SoftImpulse(sc)
Approach(s) == -Rate(s, NormalJ(s))
FasterIsStiffer == Soft(sc) => LET t == [sc EXCEPT !.A.v = Sub(@, sc.n)] IN Approach(t) > Approach(sc) /\ SoftImpulse(t) >= SoftImpulse(sc)
PointsShare == Soft(sc) => Near(sc.q.np * SoftImpulse(sc), SoftImpulse([sc EXCEPT !.q.np = 1]), 8)
=============================================================================
