------------------------------- MODULE Closest -------------------------------
(* Closest points (C16). Inputs are integers; results are reported in         *)
(* thousandths. K-versions of the inputs are the inputs in thousandths.       *)
(* Orientations are rational matrices given in 25ths.                         *)
EXTENDS Geo
K(p) == Scale(1000, p)
T == 3                                     \* tolerance of a coordinate, thousandths
(* Squared distances of results <= 20 units: thousandths of a squared unit.   *)
Sq(d) == Dot3(d, d)                        \* millionths of a squared unit
DistOk(d2, a, b) == LET d == Sub(a, b) IN  \* d2: thousandths of squared units
  Near(Sq(d) \div 1000, d2, 20 + (Abs(d[1]) + Abs(d[2]) + Abs(d[3])) \div 200)
Slack(w, t) == t * (Abs(w[1]) + Abs(w[2]) + Abs(w[3]) + 10)
(* w points from the object to the query; x is another point of the object    *)
NotCloser(w, x, c) == Dot3(w, Sub(x, c)) <= Slack(w, 6) + Slack(Sub(x, c), 6)
At(p, d, s) == [i \in DOMAIN p |-> 1000 * p[i] + d[i] * s]      \* p + d*s in thousandths, s in thousandths
(* tolerance of a point given by a rounded parameter                          *)
ParOk(p, d, s, c) == NearV(At(p, d, s), c, 3 + (SetMax({Abs(d[i]) : i \in DOMAIN d}) + 1) \div 2)

(* point and segment: exact: t = clamp(w.v / v.v)                             *)
ClampedRatio(n, d, t) == IF n <= 0 THEN t = 0 ELSE IF n >= d THEN t = 1000 ELSE Near(t * d, 1000 * n, 2 * d)
PointSegment(q0, q1, p, t, q, d2) ==
  LET v == Sub(q1, q0) IN
  /\ ClampedRatio(Dot3(Sub(p, q0), v), Dot3(v, v), t)
  /\ ParOk(q0, v, t, q) /\ DistOk(d2, K(p), q)
PointLine(q0, dir, p, t, q, d2, dl2) ==
  /\ Near(t * Dot3(dir, dir), 1000 * Dot3(Sub(p, q0), dir), 2 * Dot3(dir, dir))
  /\ ParOk(q0, dir, t, q) /\ DistOk(d2, K(p), q) /\ Near(d2, dl2, 10 + d2 \div 1000)
LineLine(p1, q1, p2, q2, ok, s, t) ==
  LET d1 == Sub(q1, p1) d2 == Sub(q2, p2) n == Cross3(d1, d2) r == Sub(p2, p1) nn == Dot3(n, n) IN
  /\ ok <=> n # <<0, 0, 0>>
  /\ ok => /\ Near(s * nn, 1000 * Dot3(Cross3(r, d2), n), 3 * nn)      \* parameters in thousandths
           /\ Near(t * nn, 1000 * Dot3(Cross3(r, d1), n), 3 * nn)
(* two segments: first-order conditions, sufficient by convexity              *)
OnSeg(p, q, s, c) == s \in 0..1000 /\ ParOk(p, Sub(q, p), s, c)
Optimal(p1, q1, p2, q2, c1, c2) ==
  LET w == Sub(c2, c1) IN
  /\ \A x \in {p1, q1} : NotCloser(w, K(x), c1)
  /\ \A x \in {p2, q2} : NotCloser(Neg(w), K(x), c2)
SegSeg(p1, q1, p2, q2, s, t, c1, c2, d2) ==
  /\ OnSeg(p1, q1, s, c1) /\ OnSeg(p2, q2, t, c2) /\ DistOk(d2, c1, c2) /\ Optimal(p1, q1, p2, q2, c1, c2)
(* number of closest pairs reported: two iff the projections overlap          *)
Parallel(p1, q1, p2, q2) == Cross3(Sub(q1, p1), Sub(q2, p2)) = <<0, 0, 0>>
OverlapLen(p1, q1, p2, q2) ==            \* positive iff the projections on a common direction overlap
  LET d == Sub(q1, p1) a == Dot3(Sub(p2, p1), d) b == Dot3(Sub(q2, p1), d)
  IN Min2(Dot3(d, d), Max2(a, b)) - Max2(0, Min2(a, b))
SegSegNum(p1, q1, p2, q2, n) ==
  IF p1 = q1 \/ p2 = q2 THEN n = 1
  ELSE IF Parallel(p1, q1, p2, q2) /\ OverlapLen(p1, q1, p2, q2) > 0 THEN n = 2 ELSE n = 1

(* Orientation: rows of m in 25ths.                                           *)
ColV(m, j) == <<m[1][j], m[2][j], m[3][j]>>                      \* image of axis j, in 25ths
(* closest point in a disc: KKT with the disc's support                       *)
Disc(pos, m, ax, r, p, q, d2) ==
  LET n == ColV(m, ax) c == Sub(q, K(pos)) w == Sub(K(p), q) h == Dot3(w, n) IN
  /\ Abs(Dot3(c, n)) <= 25 * 8                                   \* in the plane
  /\ Sq(c) <= (1000 * r + 4) * (1000 * r + 4)                    \* in the disc
  /\ DistOk(d2, K(p), q)
  (* the part of w within the plane is zero, or c is on the rim in that direction *)
  /\ LET wp == [i \in 1..3 |-> w[i] - (h * n[i]) \div 625] IN
       \/ Sq(wp) <= 100
       \/ /\ Sq(c) >= (1000 * r - 4) * (1000 * r - 4)
          /\ LET x == Cross3([i \in 1..3 |-> wp[i] \div 4], [i \in 1..3 |-> c[i] \div 4]) IN
             \A i \in 1..3 : Abs(x[i]) <= (Slack(wp, 8) + Slack(c, 8)) \div 16
          /\ Dot3(wp, c) >= -(Slack(wp, 8) + Slack(c, 8))
(* p is within the box: nearest face                                          *)
BoxOut(h, p, q) == \A i \in 1..3 : q[i] = 1000 * (IF p[i] > h[i] THEN h[i] ELSE IF p[i] < -h[i] THEN -h[i] ELSE p[i])
BoxIn6(h, p, q, nrm, d) ==
  LET m == SetMin({h[i] - p[i] : i \in 1..3} \cup {h[i] + p[i] : i \in 1..3}) IN
  /\ d = 1000 * m
  /\ \E i \in 1..3, s \in {-1, 1} :
       /\ nrm = [j \in 1..3 |-> IF j = i THEN 1000 * s ELSE 0]
       /\ q = [j \in 1..3 |-> IF j = i THEN 1000 * s * h[i] ELSE 1000 * p[j]]
       /\ h[i] - s * p[i] = m
(* convex polygon, counter-clockwise: outside gives a boundary point          *)
Edge(v, i) == Sub(v[(i % Len(v)) + 1], v[i])
Inside(v, p) == \A i \in DOMAIN v : Perp2(Edge(v, i), Sub(p, v[i])) > 0
OnBoundary(v, p) == \E i \in DOMAIN v : /\ Perp2(Edge(v, i), Sub(p, v[i])) = 0
                                        /\ Dot2(Edge(v, i), Sub(p, v[i])) >= 0
                                        /\ Dot2(Edge(v, i), Sub(p, v[i])) <= Dot2(Edge(v, i), Edge(v, i))
Polygon(v, p, out, q) ==
  /\ Inside(v, p) => ~out
  /\ ~Inside(v, p) => out
  /\ out => LET w == Sub(K(p), q) IN
     /\ \A i \in DOMAIN v : LET d == Sub(K(v[i]), q) IN
          Dot2(w, d) <= 8 * (Abs(w[1]) + Abs(w[2]) + Abs(d[1]) + Abs(d[2]) + 10)      \* no vertex lies closer
     /\ \A i \in DOMAIN v : Perp2(Edge(v, i), Sub(q, K(v[i]))) >= -4 * (Abs(Edge(v, i)[1]) + Abs(Edge(v, i)[2]))
     /\ \E i \in DOMAIN v : Perp2(Edge(v, i), Sub(q, K(v[i]))) <= 4 * (Abs(Edge(v, i)[1]) + Abs(Edge(v, i)[2]))
(* circles: the points lie on the circles and the distance is theirs          *)
OnCircle(pos, m, ax, r, c) ==
  LET d == Sub(c, K(pos)) IN
  /\ Abs(Dot3(d, ColV(m, ax))) <= 25 * 10
  /\ Near(Sq(d), 1000000 * r * r, 12000 * r)
CircleLine(pos, m, ax, r, p0, p1, n, s, rc, rl, d2, nl) ==
  /\ n \in {1, 2} /\ Near(nl, 1000, 3)
  /\ \A k \in 1..n : /\ OnCircle(pos, m, ax, r, rc[k])
                     /\ ParOk(p0, Sub(p1, p0), s[k], rl[k])
  /\ \E k \in 1..n : DistOk(d2, rc[k], rl[k])
  /\ \A k \in 1..n : LET w == Sub(rl[k], rc[k]) IN
                     Sq(w) \div 1000 >= d2 - 20 - (Abs(w[1]) + Abs(w[2]) + Abs(w[3])) \div 200
CircleCircle(a, b, n, rA, rB, d2, nl) ==
  /\ n \in {1, 2} /\ Near(nl, 1000, 3)
  /\ \A k \in 1..n : /\ OnCircle(a.pos, a.m, a.ax, a.r, rA[k]) /\ OnCircle(b.pos, b.m, b.ax, b.r, rB[k])
                     /\ DistOk(d2, rA[k], rB[k])
(* parallel circles: exact minimum, from the offset of the axes and the radii *)
ParallelCirclesMin(a, b, d2) ==
  LET n == ColV(a.m, a.ax) d == Sub(b.pos, a.pos) h == Dot3(d, n)              \* h/25: distance of the planes
      lk == ISqrt(1600 * (625 * Dot3(d, d) - h * h))                           \* offset in the plane, thousandths
      gap == Max2(0, Max2(lk - 1000 * (a.r + b.r), 1000 * Abs(a.r - b.r) - lk))
  IN Near(d2, (1000 * h * h) \div 625 + (gap * gap) \div 1000, 30 + gap \div 100)
SameAxis(a, b) == Cross3(ColV(a.m, a.ax), ColV(b.m, b.ax)) = <<0, 0, 0>>
=============================================================================
