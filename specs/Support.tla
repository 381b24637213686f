------------------------------- MODULE Support -------------------------------
(* Support functions: what "furthest along a unit direction d/n" means for    *)
(* each shape.  Inputs are integers; a rotation is a matrix of 25ths; results *)
(* are in thousandths.  World coordinates of an exact point are kept times 25 *)
(* (operator W) and projections times 25*n.                                   *)
EXTENDS Geo
Rot(m, v) == [i \in 1..3 |-> Dot3(m[i], v)]                \* times 25
RotT(m, v) == [i \in 1..3 |-> m[1][i] * v[1] + m[2][i] * v[2] + m[3][i] * v[3]]
W(m, pos, v) == Add(Rot(m, v), Scale(25, pos))
Id3 == <<<<25, 0, 0>>, <<0, 25, 0>>, <<0, 0, 25>>>>
Zero3 == <<0, 0, 0>>
\* result x (thousandths) against the exact value a / den
Is(x, a, den, tol) == Abs(x * den - 1000 * a) <= tol * den
IsV(x, a, den, tol) == \A i \in DOMAIN a : Is(x[i], a[i], den, tol)

(* ---- finite point sets ---------------------------------------------------- *)
(* S: exact points times s; d direction times n.                              *)
Top(S, d) == SetMax({Dot3(p, d) : p \in S})
SupPoint(S, s, d, n, sp) == \E p \in S : Dot3(p, d) = Top(S, d) /\ IsV(sp, p, s, 2)
\* points of S within T thousandths (+ slack e) of the furthest
Within(S, s, d, n, T) == {p \in S : 1000 * (Top(S, d) - Dot3(p, d)) < T * s * n}

Corners(h) == {<<a * h[1], b * h[2], c * h[3]>> : a, b, c \in {-1, 1}}
BoxPts(h, pos, m) == {W(m, pos, c) : c \in Corners(h)}
(* The reported feature fv is a set of corners F: all of it within T of the   *)
(* maximum, and everything within T of it belongs to F, unless exactly three  *)
(* corners of a face are within T, when the two furthest of them are an edge. *)
BoxFeature(S, d, n, T, fv) ==
  LET F == {p \in S : \E k \in DOMAIN fv : IsV(fv[k], p, 25, 3)}
      Wp == Within(S, 25, d, n, T + 2)
      Wm == Within(S, 25, d, n, T - 2)
  IN /\ Cardinality(F) = Len(fv) /\ Len(fv) \in {1, 2, 4}
     /\ F \subseteq Wp
     /\ \E p \in F : Dot3(p, d) = Top(S, d) 
     /\ \/ Wm \subseteq F
        \/ /\ Len(fv) = 2 /\ Cardinality(Wm) <= 3
           /\ \A p \in F, x \in Wm \ F : 1000 * (Dot3(x, d) - Dot3(p, d)) <= 2 * 25 * n
BoxWorld(e) ==
  LET S == BoxPts(e.h, e.pos, e.m)
  IN /\ SupPoint(S, 25, e.d, e.n, e.sp)
     /\ NearV(e.spo, Sub(e.sp, Scale(1000, e.pos)), 2)
     /\ Is(e.pj, Top(S, e.d), 25 * e.n, 2)
     /\ Is(e.fp, Top(S, e.d) - 25 * Dot3(e.ap, e.d), 25 * e.n, 3)
     /\ BoxFeature(S, e.d, e.n, e.T, e.fv)
     /\ BoxFeature(S, e.d, e.n, e.T, e.fv2)
BoxLocal(e) ==
  LET S == BoxPts(e.h, Zero3, Id3)
  IN /\ SupPoint(S, 25, e.d, e.n, e.sp)
     /\ Is(e.fp, Top(S, e.d), 25 * e.n, 2)
     /\ BoxFeature(S, e.d, e.n, e.T, e.fv)

(* ---- cylinders, discs, capsules ------------------------------------------- *)
Ax(m, ax) == [i \in 1..3 |-> m[i][ax + 1]]                 \* world axis, times 25
\* the component of the direction across the axis, in thousandths of r: r sqrt(1 - (A/25n)^2)
Across(A, n, r) == LET K == 40000 \div (25 * n) IN
                   (1000 * r * ISqrt(K * K * (625 * n * n - A * A))) \div (25 * n * K)
\* object space coordinates of a world result, thousandths
Local(m, pos, x) == LET y == RotT(m, Sub(x, Scale(1000, pos))) IN [i \in 1..3 |-> y[i] \div 25]
Axial(x, ax) == x[ax + 1]
Radial2(x, ax) == Dot3(x, x) - x[ax + 1] * x[ax + 1]
OnCyl(x, ax, r, l) == /\ Abs(Axial(x, ax)) <= 1000 * l + 3
                      /\ Radial2(x, ax) <= (1000 * r + 3) * (1000 * r + 3)
\* dot of a thousandths vector with d/n
PtProj(x, d, n) == Dot3(x, d) \div n
CylTop1000(m, ax, r, l, d, n) ==             \* projection of the solid about its centre, thousandths
  LET A == Dot3(Ax(m, ax), d) IN (40 * l * Abs(A)) \div n + Across(A, n, r)
CylFeature(A, n, r, l, T, f, fi) ==      \* A = 25 n cos(angle between direction and axis)
  LET capW == 2 * Across(A, n, r)      \* thousandths: extent of a cap along the direction
      sideW == (2 * l * Abs(A) * 40) \div n
  IN /\ f = 0 => capW <= T + 3 /\ fi = (IF A > 0 THEN 0 ELSE 1)
     /\ f = 1 => sideW <= T + 3 /\ capW >= T - 3
     /\ f = 2 => capW >= T - 3 /\ sideW >= T - 3 /\ fi = (IF A > 0 THEN 0 ELSE 1)
Ends(e, vs, s) == LET a == Scale(s, Ax(e.m, e.ax)) IN
  /\ IsV(vs[1], Add(Scale(25, e.pos), a), 25, 2) /\ IsV(vs[2], Sub(Scale(25, e.pos), a), 25, 2)
Cyl(e) ==
  LET top == CylTop1000(e.m, e.ax, e.r, e.l, e.d, e.n)
      base == (1000 * Dot3(e.pos, e.d)) \div e.n
      x == Local(e.m, e.pos, e.sp)
  IN /\ Near(e.pj, base + top, 4)
     /\ Near(PtProj(e.sp, e.d, e.n), base + top, 4)
     /\ OnCyl(x, e.ax, e.r, e.l)
     /\ NearV(e.spo, Sub(e.sp, Scale(1000, e.pos)), 2)
     /\ Ends(e, e.vs, e.l)
     /\ CylFeature(Dot3(Ax(e.m, e.ax), e.d), e.n, e.r, e.l, e.T, e.f, e.fi)
     /\ CylFeature(25 * e.dl[e.ax + 1], e.nl, e.r, e.l, e.T, e.fl, e.fil)
     /\ OnCyl(e.spl, e.ax, e.r, e.l)
     /\ Near(PtProj(e.spl, e.dl, e.nl), CylTop1000(Id3, e.ax, e.r, e.l, e.dl, e.nl), 4)
Circle(e) ==
  LET x == Local(e.m, e.pos, e.sp)
      base == (1000 * Dot3(e.pos, e.d)) \div e.n
  IN /\ Near(Axial(x, e.ax), 0, 3)
     /\ Near(ISqrt(Radial2(x, e.ax)), 1000 * e.r, 4)
     /\ Near(PtProj(e.sp, e.d, e.n), base + CylTop1000(e.m, e.ax, e.r, 0, e.d, e.n), 4)
Capsule(e) ==
  LET top == (1000 * (25 * Dot3(e.pos, e.d) + e.l * Abs(Dot3(Ax(e.m, e.ax), e.d)))) \div (25 * e.n) + 1000 * e.r
  IN /\ Near(e.pj, top, 3) /\ Near(e.pj2, top, 3) /\ Ends(e, e.vs, e.l)

(* ---- triangles: every vertex within T of the maximum is in the feature and *)
(* everything in the feature is within 2T of it.                              *)
Tri(e) ==
  LET S == Range(e.v)
      top == Top(S, e.d)
      gap(i) == 1000 * (top - Dot3(e.v[i], e.d))
  IN /\ SupPoint(S, 1, e.d, e.n, e.sp)
     /\ Is(e.pj, top, e.n, 2)
     /\ Is(e.fp, top - Dot3(e.ap, e.d), e.n, 2)
     /\ \A i \in 1..3 : gap(i) < (e.T - 2) * e.n => i \in Range(e.fs)
     /\ \A i \in Range(e.fs) : gap(i) <= 2 * (e.T + 2) * e.n
     /\ \E i \in Range(e.fs) : gap(i) = 0
     /\ e.nv = Len(e.fs) /\ e.ne = (CASE Len(e.fs) = 1 -> 0 [] Len(e.fs) = 2 -> 1 [] OTHER -> 3)

(* ---- polyhedra and point clouds -------------------------------------------- *)
Poly(e) ==
  LET S == Range(e.v)
      S4 == {e.v[i] : i \in 1..4}
  IN /\ Is(e.pj, Top(S, e.d), e.n, 2) /\ Is(e.pc, Top(S, e.d), e.n, 2)
     /\ SupPoint(S, 1, e.d, e.n, e.sp)
     /\ e.i4 \in 1..4 /\ Dot3(e.v[e.i4], e.d) = Top(S4, e.d) /\ Is(e.p4, Top(S4, e.d), e.n, 2)
(* Support polygon: exactly the points within tol of the extreme plane, their *)
(* plane coordinates in the reported frame, and the hull of those.            *)
Cross2At(a, b, c) == Perp2(Sub(b, a), Sub(c, a))
Dist2(a, b) == LET x == Sub(a, b) IN Dot2(x, x)
ConvexHullOK(P, H, tol) ==      \* P: points (thousandths), H: indices
  /\ \A i, j \in DOMAIN H : i # j => H[i] # H[j]
  /\ Range(H) \subseteq DOMAIN P /\ H # <<>>
  /\ Len(H) >= 3 => \A i \in DOMAIN H :
       LET a == P[H[i]] 
           b == P[H[(i % Len(H)) + 1]]
           len == ISqrt(Dist2(a, b))
       IN \A k \in DOMAIN P : Cross2At(a, b, P[k]) >= -(len + 1) * tol
  /\ Len(H) = 2 => \A k \in DOMAIN P :
       LET a == P[H[1]]
           b == P[H[2]]
           len == ISqrt(Dist2(a, b))
           u == Sub(b, a)
           t == Dot2(Sub(P[k], a), u)
       IN Abs(Cross2At(a, b, P[k])) <= (len + 1) * tol /\ t >= -(len + 1) * tol /\ t <= Dot2(u, u) + (len + 1) * tol
  /\ Len(H) = 1 => \A k \in DOMAIN P : NearV(P[k], P[H[1]], tol)
Polygon3(e) ==
  LET D(p) == Dot3(Add(p, e.off), e.d)
      S == {D(p) : p \in Range(e.v)}
      ext == IF e.side THEN SetMin(S) ELSE SetMax(S)
      gap(p) == 1000 * Abs(D(p) - ext)
      has(p) == \E k \in DOMAIN e.w : NearV(e.w[k], Scale(1000, Add(p, e.off)), 1)
      T(v, i) == (v[1] * e.bs[i][1] + v[2] * e.bs[i][2] + v[3] * e.bs[i][3]) \div 1000
  IN /\ \A p \in Range(e.v) : /\ has(p) => gap(p) <= (e.tol + 2) * e.n
                              /\ gap(p) < (e.tol - 2) * e.n => has(p)
     /\ Len(e.w) = Cardinality({p \in Range(e.v) : has(p)}) /\ Len(e.pv) = Len(e.w)
     /\ IsV(e.bs[2], e.d, e.n, 1)
     /\ \A i, j \in 1..3 : Near(Dot3(e.bs[i], e.bs[j]), IF i = j THEN 1000000 ELSE 0, 4000)
     /\ Is(Dot3(e.o, e.d) \div e.n, ext, e.n, 3)
     /\ \A k \in DOMAIN e.w : LET y == Sub(e.w[k], e.o) IN Near(e.pv[k][1], T(y, 1), 15) /\ Near(e.pv[k][2], T(y, 3), 15)
     /\ ConvexHullOK(e.pv, e.hull, 6)
=============================================================================
