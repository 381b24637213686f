------------------------------- MODULE Hull2D --------------------------------
(* Planar convex hulls: a hull is a sequence of indices into the point list.  *)
EXTENDS Support, Closest
AllSame(p) == \A i, j \in DOMAIN p : p[i] = p[j]
Collinear(p) == \A i, j, k \in DOMAIN p : Perp2(Sub(p[j], p[i]), Sub(p[k], p[i])) = 0
Dirs == {<<1, 0>>, <<0, 1>>, <<1, 1>>, <<1, -1>>, <<2, 1>>, <<1, 2>>, <<2, -1>>, <<1, -2>>}
HullOK(e) ==
  IF AllSame(e.p) THEN Range(e.h) \subseteq DOMAIN e.p
  ELSE /\ ConvexHullOK(e.pv, e.h, 2 + e.tol)
       \* extreme in every direction: the hull reaches as far as the points do
       /\ \A d \in Dirs : LET m == SetMax({Dot2(e.pv[i], d) : i \in DOMAIN e.p})
                              n == SetMin({Dot2(e.pv[i], d) : i \in DOMAIN e.p})
                          IN /\ \E i \in Range(e.h) : Dot2(e.pv[i], d) >= m - 10
                             /\ \E i \in Range(e.h) : Dot2(e.pv[i], d) <= n + 10
       /\ ~Collinear(e.p) => Len(e.h) >= 3
       /\ Collinear(e.p) /\ Len(e.p) > 3 /\ e.k = 0 => Len(e.h) = 2
       \* no point twice
       /\ Len(e.p) # 3 => \A i, j \in DOMAIN e.h : i # j => e.p[e.h[i]] # e.p[e.h[j]]
CcwOK(e) ==
  LET a == Perp2(Sub(e.p[2], e.p[1]), Sub(e.p[3], e.p[1])) IN
  /\ e.ccw = (a > 0) /\ e.sorted = (a <= 0)
  /\ {e.v[i] : i \in 1..3} = {Scale(1000, e.p[i]) : i \in 1..3}
  /\ (\A i \in 1..3 : Cardinality({j \in 1..3 : e.p[j] = e.p[i]}) = Cardinality({j \in 1..3 : e.v[j] = Scale(1000, e.p[i])}))
  /\ a # 0 => Perp2(Sub(e.v[2], e.v[1]), Sub(e.v[3], e.v[1])) > 0
PolyOK(e) ==
  LET inside == \A i \in DOMAIN e.h : Perp2(Sub(e.h[(i % Len(e.h)) + 1], e.h[i]), Sub(e.x, e.h[i])) >= 0 IN
  /\ e.in = inside
  /\ LET border == \E i \in DOMAIN e.h : Perp2(Sub(e.h[(i % Len(e.h)) + 1], e.h[i]), Sub(e.x, e.h[i])) = 0 IN
     IF inside /\ border THEN NearV(e.c, Scale(1000, e.x), 2)
     ELSE Polygon(e.h, e.x, e.out, e.c)
=============================================================================
