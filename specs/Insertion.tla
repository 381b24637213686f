------------------------------ MODULE Insertion -------------------------------
(* Reduction of a contact set to at most four points.  A point is <<p, e>>:   *)
(* p metres plus e times 4 millimetres.  Merging threshold: 10 millimetres.   *)
EXTENDS Geo
P(x) == x[1]
Exact(S) == \A k \in DOMAIN S : S[k][2] = <<0, 0, 0>>      \* a set without millimetre offsets
\* squared distance in square millimetres if closer than about a metre, else a large number
MM2(a, b) == LET d == Sub(a[1], b[1])
                 e == Sub(a[2], b[2])
             IN IF \E i \in 1..3 : Abs(d[i]) > 4 THEN 100000000
                ELSE LET v == Add(Scale(1000, d), Scale(4, e)) IN Dot3(v, v)
Dst2(a, b) == LET d == Sub(P(a), P(b)) IN Dot3(d, d)
Collin(a, b, c) == Cross3(Sub(P(b), P(a)), Sub(P(c), P(a))) = <<0, 0, 0>>
InTriangle(a, b, c, x) ==        \* coplanar and inside (closed), non-degenerate triangle
  LET n == Cross3(Sub(P(b), P(a)), Sub(P(c), P(a)))
      s(u, v) == Dot3(n, Cross3(Sub(P(v), P(u)), Sub(P(x), P(u))))
  IN Dot3(n, Sub(P(x), P(a))) = 0 /\ s(a, b) >= 0 /\ s(b, c) >= 0 /\ s(c, a) >= 0
AxisPlane(a, b, c) == LET n == Cross3(Sub(P(b), P(a)), Sub(P(c), P(a))) IN Cardinality({i \in 1..3 : n[i] # 0}) = 1
Area2(a, b, c) == LET n == Cross3(Sub(P(b), P(a)), Sub(P(c), P(a))) IN Dot3(n, n)
Score(a, b, c, d) == Area2(a, b, c) + Area2(a, b, d) + Area2(a, c, d) + Area2(b, c, d)
ScoreWith(S, i, x) == LET T == [S EXCEPT ![i] = x] IN Score(T[1], T[2], T[3], T[4])
None == 0
Similar == 1
Append_ == 2
Replace == 3
Ins(e) ==
  LET S == e.s
      c == e.c[1]
      n == Len(S)
      exact == Exact(S) /\ c[2] = <<0, 0, 0>>
  IN \* shape of the answer
     /\ e.t \in {None, Similar, Append_, Replace}
     /\ e.t = Append_ => e.i = n + 1 /\ e.n = n + 1 /\ n < e.cap
     /\ e.t # Append_ => e.n = n
     /\ e.t \in {Similar, Replace} => e.i \in 1..n
     /\ e.t = Similar => MM2(S[e.i], c) <= 100 + 4
     \* empty and single sets
     /\ n = 0 => e.t = Append_
     /\ n = 1 => /\ e.t \in {Append_, Similar}
                 /\ MM2(S[1], c) >= 100 + 4 => e.t = Append_
                 /\ MM2(S[1], c) <= 100 - 4 => e.t = Similar
     /\ e.t = Replace => n >= 2
     /\ (e.t = Replace /\ n \in {2, 4}) => MM2(S[e.i], c) >= 100 - 4
     \* two points: a third off their line is added, one on it only to lengthen the segment
     /\ (n = 2 /\ exact) =>
          IF ~Collin(S[1], S[2], c) THEN e.t = Append_
          ELSE LET l == Dst2(S[1], S[2])
                   l1 == Dst2(c, S[1])
                   l2 == Dst2(c, S[2])
               IN IF l1 > l /\ l1 > l2 THEN e.t \in {Replace, Similar} /\ e.i = 2
                  ELSE IF l2 > l /\ l2 > l1 THEN e.t \in {Replace, Similar} /\ e.i = 1
                  ELSE (l1 <= l /\ l2 <= l) => e.t = None
     \* three points: inside their triangle it is ignored, outside it is added; if they are
     \* collinear one that is not needed to span their segment is replaced
     /\ (n = 3 /\ exact) =>
          IF ~Collin(S[1], S[2], S[3])
          THEN /\ InTriangle(S[1], S[2], S[3], c) /\ AxisPlane(S[1], S[2], S[3]) => e.t = None
               /\ ~InTriangle(S[1], S[2], S[3], c) => e.t = Append_
               /\ e.t \in {None, Append_}
          ELSE /\ e.t = Replace
               /\ LET L == {Dst2(S[i], S[j]) : i, j \in 1..3}
                      kept == (1..3) \ {e.i}
                  IN \E i, j \in kept : Dst2(S[i], S[j]) = SetMax(L)
     \* four points: the exchange that spans the most, or none if none spans more
     /\ (n = 4 /\ exact) =>
          LET cur == Score(S[1], S[2], S[3], S[4])
              best == SetMax({ScoreWith(S, i, c) : i \in 1..4})
          IN IF best > cur THEN e.t \in {Replace, Similar} /\ ScoreWith(S, e.i, c) = best
             ELSE e.t = None
=============================================================================
