-------------------------------- MODULE Joints --------------------------------
(* What every joint asks of the two bodies it connects.  A joint is a set of   *)
(* rows; a row is a generalised direction J (linear and angular, on A and on   *)
(* B), the impulses it may apply along it [lo, hi], the velocity error it      *)
(* corrects and its bounce.  Lengths and matrices of a scene are in fifths, J, *)
(* limits and errors of a row in thousandths, angles in 1e-4 rad.  The time    *)
(* step is one half.                                                           *)
(*                                                                             *)
(* Sign convention of all rows: with x the joint coordinate (the separation,   *)
(* the angle), J.v = -dx/dt, so that a positive impulse makes x smaller.       *)
EXTENDS Geo
INF == 999999999
MV(M, v) == [i \in 1..3 |-> Dot3(M[i], v)]
Col(M, j) == [i \in 1..3 |-> M[i][j]]
Zero3 == <<0, 0, 0>>
Unit(i) == [j \in 1..3 |-> IF i = j THEN 1 ELSE 0]
DivR(x, n) == IF x >= 0 THEN (2 * x + n) \div (2 * n) ELSE -((2 * (-x) + n) \div (2 * n))   \* to the nearest
Div(v, n) == [i \in 1..3 |-> DivR(v[i], n)]
Half(x) == IF x >= 0 THEN x \div 2 ELSE -((-x) \div 2)
DivI(x, n) == IF x >= 0 THEN x \div n ELSE -((-x) \div n)

(* The scene: pivots, lever arms and frame axes in the world.                  *)
RA(s) == MV(s.A.R, Sub(s.pa, s.A.c))
RB(s) == MV(s.B.R, Sub(s.pb, s.B.c))
PA(s) == Add(s.A.p, RA(s))
PB(s) == Add(s.B.p, RB(s))
FA(s, i) == MV(s.A.R, Col(s.fa, i))
FB(s, i) == MV(s.B.R, Col(s.fb, i))

(* A force along d (in fifths) at the two pivots, scaled by 1/n; a couple      *)
(* about a on A and -b on B.                                                   *)
Force(s, d, n) == [j0 |-> Div(Scale(1000, d), n), j1 |-> Div(Scale(200, Cross3(RA(s), d)), n),
                   j2 |-> Div(Scale(-1000, d), n), j3 |-> Div(Scale(-200, Cross3(RB(s), d)), n)]
Couple(a, b, n) == [j0 |-> Zero3, j1 |-> Div(Scale(1000, a), n), j2 |-> Zero3, j3 |-> Div(Scale(-1000, b), n)]
(* The rate at which the velocities of the scene move along J.                 *)
Rate(s, J) == Dot3(J.j0, s.A.v) + Dot3(J.j1, s.A.w) + Dot3(J.j2, s.B.v) + Dot3(J.j3, s.B.w)
RowT(J, lo, hi, err, rest, t) == [J |-> J, lo |-> lo, hi |-> hi, err |-> err, rest |-> rest, t |-> t]
Row(J, lo, hi, err, rest) == RowT(J, lo, hi, err, rest, 0)     \* t: rounding of the limits here
Hard(J, err) == Row(J, -INF, INF, err, 0)

(* The rows over a coordinate x (any unit u such that 2 * u * x is its error   *)
(* in thousandths per time step: `num/den` converts).                          *)
Conv(x, u) == DivI(1000 * x, u)
(* A spring of stiffness k with deflection x: an impulse of at most k x dt     *)
(* against it, never past the rest position.                                   *)
SpringRow(J, k, x, u) == LET imp == DivI(k * Conv(x, u), 2)
                         IN Row(J, Min2(imp, 0), Max2(imp, 0), -2 * Conv(x, u), 0)
(* Limits: only the closer one acts and only pushes back into the range.       *)
LimitRow(J, x, mn, mx, u, rest, outside) ==
  LET low == 2 * x < mn + mx
      e == 2 * Conv((IF low THEN mn ELSE mx) - x, u)
      within == mn < x /\ x < mx
  IN Row(J, IF low THEN -INF ELSE 0, IF low THEN 0 ELSE INF, IF within \/ outside THEN e ELSE 0, rest)
Beyond(x, mn, mx, len) == IF x < mn + len THEN x - (mn + len) ELSE IF x > mx - len THEN x - (mx - len) ELSE 0
BumpRow(J, x, mn, mx, len, k, u) == SpringRow(J, k, Beyond(x, mn, mx, len), u)
(* Friction of constant strength plus damping proportional to the rate.        *)
DampRow(s, J, fric, damp, err) == LET i == 500 * fric + damp * Half(Abs(Rate(s, J))) IN RowT(J, -i, i, err, 0, 10 * damp)
Opt(c, r) == IF c THEN <<r>> ELSE <<>>

PivotRows(s, withError) ==
  [i \in 1..3 |-> Hard(Force(s, Scale(5, Unit(i)), 5), IF withError THEN 400 * (PA(s)[i] - PB(s)[i]) ELSE 0)]

RelSpin(s) == Sub(s.A.w, s.B.w)
PointRows(s) == PivotRows(s, TRUE) \o
  Opt(s.q.fr > 0 /\ RelSpin(s) # Zero3,
      Row(Couple(RelSpin(s), RelSpin(s), ISqrt(Len2(RelSpin(s)))), -500 * s.q.fr, 500 * s.q.fr, 0, 0))

DistanceRows(s) ==
  LET d == Sub(PA(s), PB(s)) dir == IF d = Zero3 THEN <<5, 0, 0>> ELSE d
  IN <<Hard(Force(s, dir, 5), 40 * Len2(d) - 1000 * s.q.d * s.q.d)>>

SoftRows(s) ==
  LET d == Sub(PA(s), PB(s)) n == ISqrt(Len2(d))
      J == IF n = 0 THEN Force(s, <<5, 0, 0>>, 5) ELSE Force(s, d, n)
      imp == 100 * s.q.st * (5 * s.q.d - n)
  IN <<Row(J, Min2(imp, 0), Max2(imp, 0), IF imp > 0 THEN -INF ELSE INF, 0), DampRow(s, J, 0, s.q.da, 0)>>

(* G m m / r^2, masses in 1e6: 66.74 m m / r^2.                                      *)
GravityRows(s) ==
  LET d == Sub(s.A.p, s.B.p) n == ISqrt(Len2(d)) P == (66740 * 25 * s.q.ma * s.q.mb) \div (2 * Len2(d))
  IN <<Row([j0 |-> Div(Scale(1000, d), n), j1 |-> Zero3, j2 |-> Div(Scale(-1000, d), n), j3 |-> Zero3], -P, P, INF, 0)>>

Rad == 10000
HingeRows(s, a) ==
  LET q == s.q ax == FA(s, 1) J == Couple(ax, ax, 5) lim == q.mn < q.mx
  IN PivotRows(s, FALSE) \o <<Hard(Couple(FA(s, 2), FA(s, 2), 5), 0), Hard(Couple(FA(s, 3), FA(s, 3), 5), 0)>>
     \o Opt(lim, LimitRow(J, a, q.mn, q.mx, Rad, 250 * q.re, TRUE))
     \o Opt(lim /\ q.bs > 0 /\ q.bl > 0, BumpRow(J, a, q.mn, q.mx, q.bl, q.bs, Rad))
     \o Opt(q.st > 0, SpringRow(J, q.st, a - q.ra, Rad))
     \o Opt(q.fr > 0 \/ q.da > 0, DampRow(s, J, q.fr, q.da, -1000 * q.sp))

BendRate(s) ==                               \* of integer axes
  LET tA == Div(FA(s, 1), 5) tB == Div(FB(s, 1), 5)
  IN Sub(Sub(s.A.w, Scale(Dot3(s.A.w, tA), tA)), Sub(s.B.w, Scale(Dot3(s.B.w, tB), tB)))
Asin5(k) == IF k = 0 THEN 0 ELSE IF k = 3 THEN 6435 ELSE IF k = 4 THEN 9273 ELSE IF k = 5 THEN 15708 ELSE -1
CvRows(s, a) ==
  LET q == s.q J == Couple(FA(s, 1), FB(s, 1), 5) lim == q.mn < q.mx
      rate == BendRate(s) n == ISqrt(Len2(rate))
      bend == Cross3(MV(s.A.R, q.rd), FB(s, 1)) bn == ISqrt(Len2(bend))   \* 25ths
  IN PivotRows(s, FALSE)
     \o <<IF lim THEN LimitRow(J, a, q.mn, q.mx, Rad, 250 * q.re, FALSE) ELSE Hard(J, 0)>>
     \o Opt(lim /\ q.bs > 0 /\ q.bl > 0, BumpRow(J, a, q.mn, q.mx, q.bl, q.bs, Rad))
     \o Opt(lim /\ q.st > 0, SpringRow(J, q.st, a - q.ra, Rad))
     \o Opt(lim /\ (q.fr > 0 \/ q.da > 0), DampRow(s, J, q.fr, q.da, 0))
     \o Opt((q.bf > 0 \/ q.bd > 0) /\ n > 0,
            LET i == 500 * (q.bf + q.bd * n) IN Row(Couple(rate, rate, n), -i, i, 0, 0))
     \o Opt(q.bk > 0 /\ bn > 0, SpringRow(Couple(bend, bend, bn), q.bk, Asin5(bn \div 5), Rad))

DofRows(s, J, x, d, u, lockErr, outside) ==
  Opt(d.on, IF d.mn < d.mx THEN LimitRow(J, x, d.mn, d.mx, u, 250 * d.re, outside) ELSE Hard(J, lockErr))
  \o Opt(d.on /\ d.mn < d.mx /\ d.bs > 0 /\ d.bl > 0, BumpRow(J, x, d.mn, d.mx, d.bl, d.bs, u))
  \o Opt(d.st > 0, SpringRow(J, d.st, x - d.ra, u))
  \o Opt(d.fr > 0 \/ d.da > 0, DampRow(s, J, d.fr, d.da, 0))
Offset(s, i) == DivI(Dot3(Sub(PB(s), PA(s)), FA(s, i)), 5)
(* The axes belong to A: as B slides along one, the others move with A, and    *)
(* both bodies are pushed at B's pivot.                                        *)
Slide(s, d) == [j0 |-> Scale(200, d), j1 |-> Scale(40, Cross3(Sub(PB(s), s.A.p), d)),
                j2 |-> Scale(-200, d), j3 |-> Scale(-40, Cross3(RB(s), d))]
Linear(s, i) == DofRows(s, Slide(s, FA(s, i)), Offset(s, i), s.q.l[i], 5, 0, FALSE)
(* Twist; then how far B's x axis leans towards A's z and towards A's y.       *)
Lean(s, i) == Cross3(FB(s, 1), FA(s, IF i = 2 THEN 3 ELSE 2))
Angular(s, i) ==
  LET x == s.q.an[i]
      J == IF i = 1 THEN Couple(FA(s, 1), FB(s, 1), 5) ELSE Couple(Lean(s, i), Lean(s, i), ISqrt(Len2(Lean(s, i))))
  IN DofRows(s, J, x, s.q.r[i], Rad, -2 * Conv(x, Rad), TRUE)
GenericRows(s) == Linear(s, 1) \o Linear(s, 2) \o Linear(s, 3) \o Angular(s, 1) \o Angular(s, 2) \o Angular(s, 3)

Expected(s, a) == CASE s.k = "point" -> PointRows(s) [] s.k = "distance" -> DistanceRows(s)
                    [] s.k = "soft" -> SoftRows(s) [] s.k = "gravity" -> GravityRows(s)
                    [] s.k = "hinge" -> HingeRows(s, a) [] s.k = "cv" -> CvRows(s, a)
                    [] s.k = "generic" -> GenericRows(s)

(* ------------------------- what was observed ------------------------------ *)
Tol(x) == 4 + Abs(x) \div 1000
NearTt(x, y, t) == IF Abs(y) >= INF THEN Abs(x) >= INF \div 2 /\ Sgn(x) = Sgn(y) ELSE Near(x, y, t + Tol(y))
NearT(x, y) == NearTt(x, y, 0)
NearJ(o, x) == \A f \in {"j0", "j1", "j2", "j3"} : \A i \in 1..3 : Near(o[f][i], x[f][i], 4)
NegJ(J) == [f \in DOMAIN J |-> Neg(J[f])]
Flip(r) == [J |-> NegJ(r.J), lo |-> -r.hi, hi |-> -r.lo, err |-> -r.err, rest |-> r.rest]
Same(o, x) == NearJ(o.J, x.J) /\ NearTt(o.lo, x.lo, x.t) /\ NearTt(o.hi, x.hi, x.t) /\ NearT(o.err, x.err) /\ Near(o.rest, x.rest, 1)
Matches(o, x) == Same(o, x) \/ Same(Flip(o), x)        \* the sign of J is a matter of taste
Void(r, t) == Abs(r.lo) <= 3 + t /\ Abs(r.hi) <= 3 + t       \* a row that can do nothing
(* A row that rubs about an axis of no importance: nothing moves that way.     *)
Spin0(s, r) == Len2(r.J.j0) = 0 /\ Len2(r.J.j2) = 0 /\ NearV(r.J.j1, Neg(r.J.j3), 2)
               /\ Near(ISqrt(Len2(r.J.j1)), 1000, 4) /\ r.err = 0
IdleBy(s) == IF s.k = "point" /\ RelSpin(s) = Zero3 THEN s.q.fr ELSE IF s.k = "cv" THEN IF BendRate(s) = Zero3 THEN s.q.bf ELSE 0 ELSE 0
Idle(s, r) == IdleBy(s) > 0 /\ Near(r.hi, 500 * IdleBy(s), 2) /\ Near(r.hi, -r.lo, 2) /\ Spin0(s, r)
(* Rows in any order; those that can do nothing may be there or not.           *)
SameRows(s, obs, exp) ==
  /\ \A i \in DOMAIN obs : Void(obs[i], 0) \/ Idle(s, obs[i]) \/ \E j \in DOMAIN exp : Matches(obs[i], exp[j])
  /\ \A x \in Range(exp) : Void(x, x.t) \/
       LET n == Cardinality({i \in DOMAIN obs : Matches(obs[i], x)}) m == Cardinality({i \in DOMAIN exp : Matches(exp[i], x)})
       IN n = m \/ (IdleBy(s) > 0 /\ n = m + 1)
Stored(rows) == \A i \in DOMAIN rows : rows[i].imp = 1000 * i      \* impulses come back to the row that made them
RowsOk(s, a) == SameRows(s, s.rows, Expected(s, a)) /\ Stored(s.rows)

(* ------------------------------ cone -------------------------------------- *)
(* The pivot of B stays in a cone around the x axis of the frame of A: x >= 0, *)
(* (y/ty)^2 + (z/tz)^2 <= x^2.  The row pushes along the normal of the cone.   *)
InFrame(s, v) == [i \in 1..3 |-> DivI(Dot3(v, FA(s, i)), 5)]    \* A's frame is integral
ConeOk(s) ==
  LET q == s.q f == InFrame(s, Sub(PB(s), PA(s)))               \* fifths
      y == f[2] \div q.ty  z == f[3] \div q.tz                  \* exact by choice of scene
      r == ISqrt(y * y + z * z) h == f[1] + r
      poc == <<h * r, h * f[2], h * f[3]>>                      \* point on the cone, times 2 r (fifths^2)
      tan == <<0, -(f[3] * q.ty * q.ty), f[2] * q.tz * q.tz>>
      rows == s.rows o == rows[1] n == InFrame(s, o.J.j0)
      pw == Add(PA(s), [i \in 1..3 |-> DivI(Dot3(<<FA(s, 1)[i], FA(s, 2)[i], FA(s, 3)[i]>>, poc), 10 * r)])
      ra == Sub(pw, s.A.p) rb == Sub(PB(s), s.B.p)
      depth == DivI(707 * (r - f[1]), 5)                        \* > 0: outside
  IN /\ Len(rows) = (IF q.bs > 0 /\ q.bl > 0 THEN 2 ELSE 1)
     /\ r > 0 /\ h > 0
     /\ Near(Len2(n), 1000000, 8000) /\ n[1] < 0
     /\ Abs(Dot3(n, poc)) <= 4 * (Abs(poc[1]) + Abs(poc[2]) + Abs(poc[3]))
     /\ Abs(Dot3(n, tan)) <= 4 * (Abs(tan[2]) + Abs(tan[3]))
     /\ \A i \in DOMAIN rows :
          /\ NearV(rows[i].J.j0, o.J.j0, 1) /\ NearV(rows[i].J.j2, Neg(o.J.j0), 1)
          /\ NearV(rows[i].J.j1, Div(Cross3(ra, o.J.j0), 5), 400)
          /\ NearV(rows[i].J.j3, Neg(Div(Cross3(rb, o.J.j0), 5)), 20)
          /\ rows[i].lo = 0
     /\ o.hi >= INF \div 2 /\ NearT(o.rest, 250 * q.re) /\ Near(o.err, -2 * depth, 20)
     /\ Len(rows) = 2 =>
          LET defl == 1000 * q.bl + depth imp == (q.bs * Max2(defl, 0)) \div 2 IN
          /\ Near(rows[2].hi, imp, 20 * q.bs) /\ (imp > 0 => Near(rows[2].err, -2 * defl, 20))
     /\ Stored(rows)

(* ------------------ the joint alone, solved to the end --------------------- *)
(* Velocities in thousandths; masses and moments are small integers.           *)
Settled(s) ==
  LET va == Add(Scale(1000, s.A.v), s.dva) vb == Add(Scale(1000, s.B.v), s.dvb)
      wa == Add(Scale(1000, s.A.w), s.dwa) wb == Add(Scale(1000, s.B.w), s.dwb)
      pva == Add(va, Div(Cross3(wa, RA(s)), 5)) pvb == Add(vb, Div(Cross3(wb, RB(s)), 5))
      tol == 60 rel == Sub(pva, pvb) wr == Sub(wa, wb)
      Ang(v, a) == Abs(DivI(Dot3(v, a), 5)) <= tol
  IN \* the world gets nothing: momentum is exchanged between A and B only
     /\ NearV(Scale(s.ma, s.dva), Scale(-s.mb, s.dvb), 40)
     /\ s.k # "cv" \/ FA(s, 1) = FB(s, 1) =>
          NearV(Add(Div(Cross3(s.A.p, Scale(s.ma, s.dva)), 5), Scale(s.ia, s.dwa)),
                Neg(Add(Div(Cross3(s.B.p, Scale(s.mb, s.dvb)), 5), Scale(s.ib, s.dwb))), 200)
     \* and what the joint forbids has stopped
     /\ s.k \in {"point", "hinge", "cv"} => NearV(rel, Zero3, tol)
     /\ s.k = "generic" =>            \* the locked axes; what A's own turning sweeps counts too
          LET sweep == Sub(pvb, Add(pva, Div(Cross3(wa, Sub(PB(s), PA(s))), 5)))
          IN \A i \in 1..3 : s.on[i] => Ang(sweep, FA(s, i))
     /\ s.k = "distance" => LET d == Sub(PA(s), PB(s)) IN Abs(Dot3(rel, d)) <= tol * ISqrt(Len2(d))
     /\ s.k = "hinge" => Ang(wr, FA(s, 2)) /\ Ang(wr, FA(s, 3))
     /\ s.k = "generic" => NearV(wr, Zero3, tol)
     /\ s.k = "cv" => Abs(DivI(Dot3(wa, FA(s, 1)) - Dot3(wb, FB(s, 1)), 5)) <= tol
     \* while what it allows is left alone
     /\ s.k = "hinge" => Abs(DivI(Dot3(s.dwa, FA(s, 1)), 5)) <= Abs(1000 * s.free)

(* --------------------- position correction --------------------------------- *)
(* s.a0/a1 ...: world pivots and axes before and after, in thousandths.        *)
Moved(x, y) == ~NearV(x, y, 2)
PosOk(s) ==
  /\ NearV(Scale(s.ma, Sub(s.apos1, s.apos0)), Scale(-s.mb, Sub(s.bpos1, s.bpos0)), 30)
  /\ s.k \in {"hinge", "cv"} => NearV(s.pa1, s.pb1, Max2(10, 20 * ISqrt(Len2(Sub(PA(s), PB(s))))))   \* a tenth of what it was
  /\ s.k = "hinge" => NearV(s.xa1, s.xb1, 50)
  /\ s.k = "cv" => IF s.mn < s.mx THEN s.ang >= s.mn - 100 /\ s.ang <= s.mx + 100 ELSE Abs(s.ang) <= 100
  /\ s.k = "generic" =>
       LET Out(x, i) == Max2(0, Max2(1000 * s.lmn[i] - x, x - 1000 * s.lmx[i]))
           Before == Sum([i \in 1..3 |-> IF s.on[i] THEN Out(200 * Offset(s, i), i) ELSE 0])
           After == Sum([i \in 1..3 |-> IF s.on[i] THEN Out(s.off[i], i) ELSE 0])
       IN After <= Max2(15, Before \div 5)
  /\ s.ok => ~Moved(s.apos0, s.apos1) /\ ~Moved(s.bpos0, s.bpos1) /\ ~Moved(s.xa0, s.xa1) /\ ~Moved(s.xb0, s.xb1)

(* ---------------------- turning: the angle is counted ---------------------- *)
VARIABLE ang                                  \* of B relative to A, over all turns
Start(s, a) == ang' = a
Turn(s) == ang' = ang + s.by
=============================================================================
