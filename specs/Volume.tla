-------------------------------- MODULE Volume --------------------------------
(* Volume and centroid of a closed polyhedron by the divergence theorem, over *)
(* a fan triangulation about an arbitrary vertex of each face.                *)
EXTENDS Geo
Fans(F) == UNION {{<<F[i][1], F[i][j], F[i][j + 1]>> : j \in 2..(Len(F[i]) - 1)} : i \in DOMAIN F}
Det(v, t) == Dot3(v[t[1]], Cross3(v[t[2]], v[t[3]]))
RECURSIVE Acc(_, _, _)
Acc(S, f(_), a) == IF S = {} THEN a ELSE LET x == CHOOSE y \in S : TRUE IN Acc(S \ {x}, f, a + f(x))
SixVol(v, F) == Acc(Fans(F), LAMBDA t : Det(v, t), 0)
Moment(v, F, i) == Acc(Fans(F), LAMBDA t : Det(v, t) * (v[t[1]][i] + v[t[2]][i] + v[t[3]][i]), 0)    \* 24 V c
Mesh(e) ==
  LET V6 == SixVol(e.v, e.f) IN
  /\ V6 > 0
  /\ Abs(6 * e.vol - 1000 * V6) <= 12 + V6 \div 100
  /\ Near(e.pvol, e.vol, 1)
  /\ \A i \in 1..3 : Abs(4 * V6 * e.c[i] - 1000 * Moment(e.v, e.f, i)) <= 4 * V6 * 5
Pi(x) == (3141593 * x) \div 1000                  \* pi x, thousandths
Rel(a, b) == Abs(a - b) <= 2 + b \div 100000
Shape(e) ==
  LET sph == Pi(4 * e.r * e.r * e.r) \div 3
      cyl == Pi(2 * e.r * e.r * e.l)
      box == 8000 * e.x[1] * e.x[2] * e.x[3]
      part(k) == CASE k = 0 -> sph [] k = 1 -> cyl [] k = 2 -> sph + cyl [] k = 3 -> box [] k = 4 -> e.ps
  IN /\ Rel(e.sp, sph) /\ Rel(e.sv, sph) /\ Rel(e.cy, cyl) /\ Rel(e.ca, sph + cyl) /\ Rel(e.bo, box)
     /\ Rel(e.cv, Pi(e.r * e.r * e.l)) /\ e.bv = 1000 * e.x[1] * e.x[2] * e.x[3]
     /\ Abs(e.co - Sum([k \in DOMAIN e.parts |-> part(e.parts[k])])) <= 10 + e.co \div 50000
=============================================================================
