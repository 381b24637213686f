------------------------------ MODULE Intersect ------------------------------
(* Intersection tests (C17): exact on integer inputs. Parameters are reported *)
(* in thousandths.                                                            *)
EXTENDS Geo
(* The parameter t (thousandths) is the rational n/d.                         *)
Is(t, n, d) == IF d > 0 THEN Near(t * d, 1000 * n, 2 * d) ELSE Near(-t * d, -1000 * n, -2 * d)
Pow2(x) == Abs(x) \in {1, 2, 4, 8, 16}

(* Line through p0, p1 and circle of radius r at the origin.                  *)
LineCircle(p0, p1, r, n, s0, s1) ==
  LET d == Sub(p1, p0) a == Dot2(d, d) b == Dot2(d, p0)
      disc == b * b - a * (Dot2(p0, p0) - r * r) IN
  IF disc < 0 THEN n = 0
  ELSE IF disc = 0 THEN n = 1 /\ Is(s0, -b, a)
  ELSE LET q == ISqrt(1000000 * disc) IN
       n = 2 /\ Near(a * s0, -1000 * b - q, 2 * a + 2) /\ Near(a * s1, -1000 * b + q, 2 * a + 2)

OnCirc(p, c, r) == LET d == Sub(p, Scale(1000, c)) IN Near(Dot2(d, d), 1000000 * r * r, 12000 * r)
CircleCircle(a, ra, b, rb, n, x, y) ==
  LET u == Sub(b, a) l == Dot2(u, u) IN
  IF l > (ra + rb) * (ra + rb) \/ l < (ra - rb) * (ra - rb) THEN n = 0
  ELSE IF l = 0 THEN n = 2 /\ OnCirc(x, a, ra) /\ OnCirc(y, a, ra) /\ ~NearV(x, y, 100)
  ELSE IF l = (ra + rb) * (ra + rb) \/ l = (ra - rb) * (ra - rb)
       THEN n \in {1, 2} /\ OnCirc(x, a, ra) /\ OnCirc(x, b, rb) /\ (n = 2 => NearV(x, y, 12))
  ELSE /\ n = 2 /\ \A p \in {x, y} : OnCirc(p, a, ra) /\ OnCirc(p, b, rb)
       /\ ~NearV(x, y, 100)

(* Line and box in the plane: where it enters and leaves.                     *)
Slab2(p, d, lo, hi) == IF d > 0 THEN <<lo - p, hi - p, d>> ELSE <<p - hi, p - lo, -d>>   \* [a/d, b/d]
Less(a, b, c, d) == a * d < c * b                                     \* a/b < c/d, b, d > 0
LineBox(p0, p1, lo, hi, n, s0, s1) ==
  LET d == Sub(p1, p0)
      Free(i) == d[i] = 0
      Out(i) == Free(i) /\ (p0[i] < lo[i] \/ p0[i] > hi[i])
      X == Slab2(p0[1], d[1], lo[1], hi[1]) Y == Slab2(p0[2], d[2], lo[2], hi[2])
      In == IF Free(1) THEN <<Y[1], Y[3]>> ELSE IF Free(2) THEN <<X[1], X[3]>>
            ELSE IF Less(X[1], X[3], Y[1], Y[3]) THEN <<Y[1], Y[3]>> ELSE <<X[1], X[3]>>
      Ex == IF Free(1) THEN <<Y[2], Y[3]>> ELSE IF Free(2) THEN <<X[2], X[3]>>
            ELSE IF Less(X[2], X[3], Y[2], Y[3]) THEN <<X[2], X[3]>> ELSE <<Y[2], Y[3]>>
      Both == \/ Is(s0, In[1], In[2]) /\ Is(s1, Ex[1], Ex[2])
              \/ Is(s1, In[1], In[2]) /\ Is(s0, Ex[1], Ex[2])
      One == Is(s0, In[1], In[2]) \/ Is(s0, Ex[1], Ex[2])
      Corner == \E c \in {<<x, y>> : x \in {lo[1], hi[1]}, y \in {lo[2], hi[2]}} : Perp2(d, Sub(c, p0)) = 0
      Exact == ~Corner \/ (Pow2(d[1]) /\ Pow2(d[2]))                  \* corners met with exact arithmetic
  IN IF Out(1) \/ Out(2) THEN n = 0
     ELSE IF Free(1) \/ Free(2) THEN n = 2 /\ Both
     ELSE IF Less(Ex[1], Ex[2], In[1], In[2]) THEN n = 0
     ELSE IF ~Exact THEN n \in 0..2 /\ (n = 1 => One) /\ (n = 2 => Both \/ One)
     ELSE IF ~Less(In[1], In[2], Ex[1], Ex[2]) THEN n = 1 /\ One
     ELSE n = 2 /\ Both

(* Two segments in the plane.                                                 *)
Segments(p0, p1, q0, q1, n, s0, t0, s1, t1) ==
  LET dp == Sub(p1, p0) dq == Sub(q1, q0) e == Sub(q0, p0) d == Perp2(dp, dq)
      sn == Perp2(e, dq) * Sgn(d) tn == Perp2(e, dp) * Sgn(d)
      pp == Dot2(dp, dp) a == Dot2(e, dp) b == Dot2(Sub(q1, p0), dp)
      lo == Max2(0, Min2(a, b)) hi == Min2(pp, Max2(a, b))
      At(c, v, t) == [i \in 1..2 |-> 1000 * c[i] + v[i] * t]
      Ends == {[i \in 1..2 |-> 1000 * p0[i] + (1000 * lo * dp[i]) \div pp], [i \in 1..2 |-> 1000 * p0[i] + (1000 * hi * dp[i]) \div pp]}
      Covers(x, y) == \A en \in Ends : NearV(x, en, 10) \/ NearV(y, en, 10)
  IN IF d # 0
     THEN LET D == Abs(d) IN
          IF sn < 0 \/ sn > D \/ tn < 0 \/ tn > D THEN n = 0
          ELSE n = 1 /\ Is(s0, sn, D) /\ Is(t0, tn, D)
     ELSE IF Perp2(e, dp) # 0 \/ lo > hi THEN n = 0
     ELSE IF lo = hi THEN n = 1 /\ Covers(At(p0, dp, s0), At(p0, dp, s0)) /\ Covers(At(q0, dq, t0), At(q0, dq, t0))
     ELSE n = 2 /\ Covers(At(p0, dp, s0), At(p0, dp, s1)) /\ Covers(At(q0, dq, t0), At(q0, dq, t1))

(* Ray and sphere: smallest non-negative parameter.                           *)
RaySphere(p0, p1, c, r, hit, t) ==
  LET d == Sub(p1, p0) m == Sub(p0, c) a == Dot3(d, d) b == Dot3(m, d) cc == Dot3(m, m) - r * r
      disc == b * b - a * cc
  IN IF cc <= 0 \/ (b < 0 /\ disc >= 0)
     THEN hit /\ IF cc < 0 THEN t = 0
                 ELSE Near(a * t, Max2(0, -1000 * b - 10 * ISqrt(10000 * disc)), 2 * a + 20)
     ELSE ~hit

(* Line and infinite cylinder along n (25ths) through c.                      *)
RayCylinder(p0, p1, c, n, r, kind, dist, nrm, fi, fo) ==
  LET d == Sub(p1, p0) m == Sub(p0, c) u == [i \in 1..3 |-> n[i] \div 25]
      cube == \A i \in 1..3 : n[i] % 25 = 0
      dn == Dot3(d, u) mn == Dot3(m, u)
      a == Dot3(d, d) - dn * dn b == Dot3(m, d) - mn * dn
      cc == Dot3(m, m) - mn * mn - r * r disc == b * b - a * cc
      At(t) == [i \in 1..3 |-> 1000 * m[i] + d[i] * t]
      Small(v) == \A i \in DOMAIN v : Abs(v[i]) <= 12000
      OnSide(t) == LET v == At(t) h == Dot3([i \in 1..3 |-> v[i]], n) \div 25 tol == 2 + SetMax({Abs(d[i]) : i \in 1..3})
                   IN Small(v) => Near(Dot3(v, v) - h * h, 1000000 * r * r, 3000 * r * tol + 5000 * tol)
  IN /\ (kind = 0) <=> (Cross3(d, n) = <<0, 0, 0>>)
     /\ (cube /\ kind # 0) => IF disc < 0 THEN kind = 1 ELSE IF disc > 0 THEN kind = 2 ELSE kind \in {1, 2}
     /\ kind = 2 => /\ OnSide(fi) /\ OnSide(fo) /\ fi <= fo
                    /\ Near(Dot3(nrm, nrm) \div 1000, dist, 40)
                    /\ Abs(Dot3(nrm, d)) <= 4 * (Abs(d[1]) + Abs(d[2]) + Abs(d[3])) + 10
                    /\ Abs(Dot3(nrm, n)) <= 25 * 10
                    /\ cube => /\ Near(a * fi, -1000 * b - 10 * ISqrt(10000 * Max2(0, disc)), 4 * a + 20)
                               /\ Near(a * fo, -1000 * b + 10 * ISqrt(10000 * Max2(0, disc)), 4 * a + 20)

(* Segment and triangle (both sides count).                                   *)
SegTriangle(p0, p1, v, hit, t) ==
  LET N == Cross3(Sub(v[2], v[1]), Sub(v[3], v[1])) d == Sub(p1, p0)
      D == Dot3(d, N) Ev == Dot3(Sub(v[1], p0), N)
      X(w) == Add(Scale(D, Sub(p0, w)), Scale(Ev, d))                     \* D * (intersection - w)
      Side(i) == Sgn(D) * Sgn(Dot3(Cross3(N, Sub(v[(i % 3) + 1], v[i])), X(v[i])))
      inner == \A i \in 1..3 : Side(i) > 0
      outer == \E i \in 1..3 : Side(i) < 0
      tin == IF D > 0 THEN 0 < Ev /\ Ev < D ELSE D < Ev /\ Ev < 0
      tout == IF D > 0 THEN Ev < 0 \/ Ev > D ELSE Ev > 0 \/ Ev < D
      k == SetMax({Abs(N[i]) : i \in 1..3})
      exact == Cardinality({i \in 1..3 : N[i] # 0}) = 1 /\ Pow2(D \div k)
  IN IF D = 0 THEN (Ev # 0 => ~hit)
     ELSE IF tout \/ outer THEN ~hit
     ELSE IF (tin /\ inner) \/ exact THEN hit /\ Is(t, Ev, D)
     ELSE hit => Is(t, Ev, D)

InPrism(v, N, p) == \A i \in DOMAIN v : Dot3(Cross3(N, Sub(v[(i % Len(v)) + 1], v[i])), Sub(p, v[i])) >= 0
InPolygon(v, p) == \A i \in DOMAIN v : Perp2(Sub(v[(i % Len(v)) + 1], v[i]), Sub(p, v[i])) >= 0

(* The arcs between directions a, b and between c, d on the sphere cross.     *)
Arcs(a, b, c, d) ==
  LET n == Cross3(a, b) k == Cross3(c, d) x == Cross3(n, k)
      Within(y, p, q, m) == <<Sgn(Dot3(Cross3(p, y), m)), Sgn(Dot3(Cross3(y, q), m))>>
      S(y) == Within(y, a, b, n) \o Within(y, c, d, k)
  IN <<S(x), S(Neg(x))>>
MinkowskiFace(a, b, c, d, res) ==
  LET z == Arcs(a, b, c, d) IN
  \/ \E i \in 1..2, j \in 1..4 : z[i][j] = 0                              \* touching: either answer
  \/ res <=> \E i \in 1..2 : z[i] = <<1, 1, 1, 1>>
=============================================================================
