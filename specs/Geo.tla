--------------------------------- MODULE Geo ---------------------------------
(* Integer geometry: points are 3-tuples (or 2-tuples) of integers.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Add(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
Sub(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
Neg(a) == [i \in DOMAIN a |-> -a[i]]
Scale(k, a) == [i \in DOMAIN a |-> k * a[i]]
Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Dot2(a, b) == a[1] * b[1] + a[2] * b[2]
Cross3(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Perp2(a, b) == a[1] * b[2] - a[2] * b[1]
Len2(a) == Dot3(a, a)
Near(x, y, tol) == Abs(x - y) <= tol
NearV(a, b, tol) == \A i \in DOMAIN a : Abs(a[i] - b[i]) <= tol
Range(s) == {s[i] : i \in DOMAIN s}
Sum(s) == LET f[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE f[i - 1] + s[i] IN f[Len(s)]
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y

(* Axis-aligned boxes <<lo, hi>>, closed.                                     *)
BoxOverlap(b, c) == \A i \in 1..3 : b[1][i] <= c[2][i] /\ c[1][i] <= b[2][i]
BoxIn(b, c) == \A i \in 1..3 : c[1][i] <= b[1][i] /\ b[2][i] <= c[2][i]     \* b within c
PtIn(p, b) == \A i \in 1..3 : b[1][i] <= p[i] /\ p[i] <= b[2][i]
Union(S) == <<[i \in 1..3 |-> SetMin({b[1][i] : b \in S})], [i \in 1..3 |-> SetMax({b[2][i] : b \in S})]>>

(* Exact segment / box test: the slab intervals <<n1, n2>> / d (d > 0), with  *)
(* the segment parameter in [0, 1], have a common point.                      *)
Slab(p, q, lo, hi) ==                        \* <<a, b, d>>: t in [a/d, b/d]; empty if a > b
  LET d == q - p IN
  IF d = 0 THEN IF lo <= p /\ p <= hi THEN <<0, 1, 1>> ELSE <<1, 0, 1>>
  ELSE IF d > 0 THEN <<Max2(lo - p, 0), Min2(hi - p, d), d>>
  ELSE <<Max2(p - hi, 0), Min2(p - lo, -d), -d>>
SegBox(p, q, b) ==
  LET s == [i \in 1..3 |-> Slab(p[i], q[i], b[1][i], b[2][i])]
  IN \A i, j \in 1..3 : s[i][1] * s[j][3] <= s[j][2] * s[i][3]

(* Floor of the square root.                                                  *)
RECURSIVE ISqrtIn(_, _, _)
ISqrtIn(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE
  LET m == (lo + hi) \div 2 IN IF m * m <= x THEN ISqrtIn(x, m, hi) ELSE ISqrtIn(x, lo, m)
ISqrt(x) == ISqrtIn(x, 0, 46340)
=============================================================================
