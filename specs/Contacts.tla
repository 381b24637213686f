------------------------------ MODULE Contacts ------------------------------
(* What a contact point asks of the two bodies it keeps apart, with units and  *)
(* scene as in Joints: a normal that points towards A (fifths), a distance     *)
(* (fifths, negative: penetrating), friction coefficients in quarters.         *)
(* Inverse masses and inverse moments are integers (0: cannot be moved).       *)
EXTENDS Joints

(* ---------------------------- the normal ----------------------------------- *)
NormalJ(s) == Force(s, s.n, 5)
Soft(s) == s.k = "extras" /\ s.q.st > 0 /\ s.q.dist < 0
(* A soft contact is a spring and a damper shared among the points: it never   *)
(* pulls.                                                                      *)
SoftImpulse(s) == Max2(0, DivI((-200 * s.q.dist * s.q.st) - Rate(s, NormalJ(s)) * s.q.da, 2 * s.q.np))
NormalOk(s) ==
  LET o == s.nr IN
  /\ s.rows = 1 /\ NearJ(o.J, NormalJ(s)) /\ o.lo = 0
  /\ IF Soft(s) THEN Near(o.hi, SoftImpulse(s), 20) /\ (SoftImpulse(s) > 20 => o.err <= -INF \div 2)
     ELSE o.hi >= INF \div 2 /\ NearT(o.err, IF s.q.dist > 0 THEN 400 * s.q.dist ELSE 0)
  /\ Near(o.rest, 250 * s.q.re, 1)

(* ---------------------------- friction ------------------------------------- *)
(* Resistance of the bodies to an impulse along J: 1 / (J M^-1 JT), in 1e-5.   *)
WSq(v, w) == v[1] * v[1] * w[1] + v[2] * v[2] * w[2] + v[3] * v[3] * w[3]
Compliance(s, J) == s.ia * Len2(J.j0) + s.ib * Len2(J.j2) + WSq(J.j1, s.ja) + WSq(J.j3, s.jb)     \* 1e-6
EffOk(s, J, eff) == LET c == Compliance(s, J) \div 100
                    IN c >= 100 => Near(eff, 1000000000 \div c, 20 + (1000000000 \div c) \div 25)
Tangent(s, t) == Abs(Dot3(t, s.n)) <= 20
RowOk(s, o, mu) == /\ Near(o.mu, 250 * mu, 1) /\ EffOk(s, o.J, o.eff) /\ Near(o.rhs, -Rate(s, o.J), 40)
FrictionOk(s) ==
  /\ Len(s.fr) = 2
  /\ \A i \in 1..2 : LET J == s.fr[i].J t == J.j0 IN
       /\ Tangent(s, t) /\ Near(Len2(t), 1000000, 5000)
       /\ NearV(J.j2, Neg(t), 2) /\ NearV(J.j1, Div(Cross3(RA(s), t), 5), 12) /\ NearV(J.j3, Neg(Div(Cross3(RB(s), t), 5)), 12)
       /\ RowOk(s, s.fr[i], s.q.mu)
  /\ Abs(Dot3(s.fr[1].J.j0, s.fr[2].J.j0)) <= 5000

(* Rolling friction: couples about two axes of the tangent plane.  A body that *)
(* only rolls about one axis (its roll direction, which turns with the body)   *)
(* is not braked about the others.                                             *)
Roll(s, j) == IF j = 0 THEN MV(s.A.R, s.d0) ELSE MV(s.B.R, s.d1)                 \* 25ths
Rolls(s) == {j \in {0, 1} : Roll(s, j) # Zero3}
RollingOk(s) ==
  IF s.k # "extras" \/ s.q.ro = 0 THEN s.rl = <<>>
  ELSE /\ Len(s.rl) = 2
       /\ \A i \in 1..2 : LET J == s.rl[i].J a == J.j1 IN
            /\ J.j0 = Zero3 /\ J.j2 = Zero3 /\ NearV(J.j3, Neg(a), 2) /\ Tangent(s, a) /\ Len2(a) <= 1005000
            /\ Near(s.rl[i].mu, 250 * s.q.ro, 1) /\ Near(s.rl[i].rhs, -Rate(s, J), 40)
            /\ (Len2(a) > 250000 => EffOk(s, J, s.rl[i].eff))
            /\ \A j \in Rolls(s) : Abs(DivI(Dot3(a, Roll(s, j)), 25)) <= 6 => ISqrt(Len2(a)) <= 40 + 40 * (Cardinality(Rolls(s)) - 1)
            /\ \A j \in Rolls(s) : Cardinality(Rolls(s)) = 1 => Near(Abs(Dot3(a, Roll(s, j))) * 40, Len2(a), 12000)
       /\ Abs(Dot3(s.rl[1].J.j1, s.rl[2].J.j1)) <= 8000
       /\ Rolls(s) = {} => \A i \in 1..2 : Near(Len2(s.rl[i].J.j1), 1000000, 5000)
       /\ \A j \in Rolls(s) : Cardinality(Rolls(s)) = 1 =>
            LET out == Dot3(Roll(s, j), s.n)                                     \* 125ths
            IN Near(Len2(s.rl[1].J.j1) + Len2(s.rl[2].J.j1), 64 * (15625 - out * out), 12000)
(* Spinning friction: a couple about the normal.                               *)
SpinOk(s) ==
  IF s.k # "extras" \/ s.q.sp = 0 THEN s.sn = <<>>
  ELSE /\ Len(s.sn) = 1
       /\ LET o == s.sn[1] n == Scale(200, s.n) J == [j0 |-> Zero3, j1 |-> n, j2 |-> Zero3, j3 |-> Neg(n)]
          IN NearV(o.ja, n, 2) /\ NearV(o.jb, Neg(n), 2) /\ EffOk(s, J, o.eff) /\ Near(o.rhs, -Rate(s, J), 40) /\ Near(o.mu, 250 * s.q.sp, 1)

ContactOk(s) == NormalOk(s) /\ FrictionOk(s) /\ RollingOk(s) /\ SpinOk(s)

(* ----------------- the life of a contact: stored impulses ------------------- *)
(* What the solver applied is where it starts the next time, row by row.        *)
VARIABLE imp
Slots == {"n", "f1", "f2", "r1", "r2", "s"}
Fresh == [x \in Slots |-> 0]
StoreAt(i, ro, sp, base) ==
  [x \in Slots |-> CASE x = "n" -> base [] x = "f1" -> base + 1 [] x = "f2" -> base + 2
                     [] x = "r1" -> IF ro THEN base + 3 ELSE i[x] [] x = "r2" -> IF ro THEN base + 4 ELSE i[x]
                     [] x = "s" -> IF sp THEN base + (IF ro THEN 5 ELSE 3) ELSE i[x]]
Carried(s, i) == /\ s.nr.imp = 1000 * i["n"]
                 /\ s.fr # <<>> => s.fr[1].imp = 1000 * i["f1"] /\ s.fr[2].imp = 1000 * i["f2"]
                 /\ s.rl # <<>> => s.rl[1].imp = 1000 * i["r1"] /\ s.rl[2].imp = 1000 * i["r2"]
                 /\ s.sn # <<>> => s.sn[1].imp = 1000 * i["s"]

(* ---------------- the contact alone, solved to the end --------------------- *)
ResolveOk(s) ==
  LET va == Add(Scale(1000, s.A.v), s.dva) vb == Add(Scale(1000, s.B.v), s.dvb)
      wa == Add(Scale(1000, s.A.w), s.dwa) wb == Add(Scale(1000, s.B.w), s.dwb)
      rel == Sub(Add(va, Div(Cross3(wa, RA(s)), 5)), Add(vb, Div(Cross3(wb, RB(s)), 5)))
      vn == DivI(Dot3(rel, s.n), 5) v0 == Rate(s, NormalJ(s))
      bounce == DivI(-s.q.re * v0, 4)
      vt == Sub(rel, Div(Scale(vn, s.n), 5))
      P == Add(s.f, Div(Scale(s.ni, s.n), 5))                       \* impulse on A
      flen == ISqrt(Len2(s.f)) most == DivI(s.q.mu * s.ni, 4) tol == 60
  IN /\ s.ni >= 0
     /\ NearV(s.dva, Scale(s.ia, P), 30) /\ NearV(s.dvb, Scale(-s.ib, P), 30)
     /\ LET TA == Div(Cross3(RA(s), P), 5) TB == Div(Cross3(RB(s), P), 5)
        IN \A i \in 1..3 : Near(s.dwa[i], s.ja[i] * TA[i], 60) /\ Near(s.dwb[i], -s.jb[i] * TB[i], 60)
     /\ s.conv =>
          /\ flen <= most + 5
          /\ s.q.dist = 0 => vn >= bounce - tol /\ (s.ni > tol => Near(vn, bounce, tol))
          /\ s.q.dist > 0 /\ s.q.re = 0 => vn >= -400 * s.q.dist - tol          \* still apart after the step
          /\ flen < most - 20 => NearV(vt, Zero3, tol)                          \* sticks
          /\ Dot3(Div(s.f, 10), Div(vt, 10)) <= 20 * flen + 20 * 10             \* or slides against it
     /\ s.q.mu = 0 /\ v0 >= 0 => s.ni = 0

(* ------------------------- pushed apart ------------------------------------ *)
PushOk(s) ==
  LET d25 == Dot3(Sub(PA(s), PB(s)), s.n)                              \* distance before, 25ths
      d0 == 40 * d25 hard == s.k = "contact" \/ s.q.st = 0
      ap == Scale(200, s.A.p) bp == Scale(200, s.B.p)
      da == Sub(s.apos1, ap) db == Sub(s.bpos1, bp)
      d1 == DivI(Dot3(Sub(s.pa1, s.pb1), s.n1), 1000)
      Still == NearV(da, Zero3, 2) /\ NearV(db, Zero3, 2) /\ NearV(s.ax0, s.ax1, 2) /\ NearV(s.ay0, s.ay1, 2)
               /\ NearV(s.bx0, s.bx1, 2) /\ NearV(s.by0, s.by1, 2)
  IN /\ NearV(Scale(s.ib, da), Scale(-s.ia, db), 30)
     /\ s.ia = 0 => NearV(da, Zero3, 2) /\ NearV(s.ax0, s.ax1, 2) /\ NearV(s.ay0, s.ay1, 2)
     /\ s.ib = 0 => NearV(db, Zero3, 2) /\ NearV(s.bx0, s.bx1, 2) /\ NearV(s.by0, s.by1, 2)
     /\ IF ~hard \/ d25 >= 0 THEN Still
        ELSE /\ d1 >= -10 /\ d1 <= 10
             /\ s.at = 0 => /\ NearV(Cross3(da, s.n), Zero3, 40) /\ NearV(Cross3(db, s.n), Zero3, 40)
                            /\ Dot3(da, s.n) >= -20 /\ Dot3(db, s.n) <= 20
             /\ s.most >= -d0 - 5
     /\ hard => /\ Near(s.first, d0, 5) /\ Near(s.last, d1, 10) /\ NearV(s.n1, s.nw, 5)
=============================================================================
