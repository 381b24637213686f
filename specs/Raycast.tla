------------------------------- MODULE Raycast -------------------------------
(* Casting segments against a world of bodies.  A body is a record: its shape *)
(* kind t (0 sphere, 1 cylinder, 2 capsule, 3 box, 4 convex polyhedron,       *)
(* 5 compound of those, 6 plane, 7 triangle mesh) with integer dimensions,    *)
(* the position pos of the shape and its rotation m (25ths).  Segments have   *)
(* integer ends.  Reported fractions are in 1/100000, normals and all derived *)
(* points in thousandths.                                                     *)
(*                                                                            *)
(* The answer for one body is judged against the body as a set of points: the *)
(* point at the reported fraction belongs to the body, is furthest along the  *)
(* reported normal (so it is on the surface, and the normal is an outward     *)
(* normal there) and the segment is entering.  For a convex body there is one *)
(* such point only.  If nothing is reported, no point of the segment is       *)
(* inside.  The answer for the world is the least of the bodies' not ignored. *)
EXTENDS Geo
VARIABLE bodies
rvars == <<bodies>>
F == 100000
Rnd(a, b) == (a + b \div 2) \div b
RotT(m, v) == [i \in 1..3 |-> m[1][i] * v[1] + m[2][i] * v[2] + m[3][i] * v[3]]
\* world -> local, thousandths
Loc(pos, m, x) == LET y == RotT(m, Sub(x, Scale(1000, pos))) IN [i \in 1..3 |-> Rnd(y[i], 25)]
LocV(m, v) == LET y == RotT(m, v) IN [i \in 1..3 |-> Rnd(y[i], 25)]
Near20(x) == \A i \in 1..3 : Abs(x[i]) <= 20000
Sq(x) == x * x
CapAx(s, x) == LET a == x[s.ax + 1] IN Max2(-1000 * s.l, Min2(1000 * s.l, a))
\* x (local) belongs to the primitive solid s grown by g
InPrim(s, x, g) ==
  /\ Near20(x)
  /\ CASE s.t = 0 -> Len2(x) <= Sq(1000 * s.r + g)
       [] s.t = 1 -> /\ Abs(x[s.ax + 1]) <= 1000 * s.l + g
                     /\ Len2([x EXCEPT ![s.ax + 1] = 0]) <= Sq(1000 * s.r + g)
       [] s.t = 2 -> Len2([x EXCEPT ![s.ax + 1] = @ - CapAx(s, x)]) <= Sq(1000 * s.r + g)
       [] s.t = 3 -> \A i \in 1..3 : Abs(x[i]) <= 1000 * s.h[i] + g
       [] s.t = 4 -> \A k \in DOMAIN s.fn : Dot3(s.fn[k], x) <= 1000 * Dot3(s.fn[k], s.v[s.f0[k]]) + g * ISqrt(Len2(s.fn[k]))
PartLoc(p, x) == Loc(p.pos, p.m, x)
InSolid(s, x, g) == IF s.t = 5 THEN \E k \in DOMAIN s.ps : InPrim(s.ps[k], PartLoc(s.ps[k], x), g) ELSE InPrim(s, x, g)
\* how far s reaches along n (thousandths, unit length); in millionths
Reach(s, n) ==
  CASE s.t = 0 -> 1000000 * s.r
    [] s.t = 1 -> 1000 * (s.l * Abs(n[s.ax + 1]) + s.r * ISqrt(Len2([n EXCEPT ![s.ax + 1] = 0])))
    [] s.t = 2 -> 1000 * s.l * Abs(n[s.ax + 1]) + 1000000 * s.r
    [] s.t = 3 -> 1000 * (Abs(n[1]) * s.h[1] + Abs(n[2]) * s.h[2] + Abs(n[3]) * s.h[3])
    [] s.t = 4 -> 1000 * SetMax({Dot3(n, v) : v \in Range(s.v)})
Unit(n) == (\A i \in 1..3 : Abs(n[i]) <= 1010) /\ Near(Len2(n), 1000000, 8000)
Axis(i, sgn) == [j \in 1..3 |-> IF j = i THEN 1000 * sgn ELSE 0]
\* what is said about the feature that was hit: <<kind of shape, ...>>
InfoPrim(s, x, n, f) ==
  CASE s.t = 0 -> f = <<0>>
    [] s.t = 1 -> /\ f[1] = 2
                  /\ IF f[2] = 0 THEN f[3] \in {0, 1} /\ NearV(n, Axis(s.ax + 1, 1 - 2 * f[3]), 8)
                     ELSE f[2] = 1 /\ Near(n[s.ax + 1], 0, 8)
    [] s.t = 2 -> /\ f[1] = 3
                  /\ IF f[2] = 0 THEN f[3] \in {0, 1} /\ (1 - 2 * f[3]) * x[s.ax + 1] >= 1000 * s.l - 12
                     ELSE f[2] = 1 /\ Abs(x[s.ax + 1]) <= 1000 * s.l + 12
    [] s.t = 3 -> f[1] = 1 /\ f[2] \in 0..5 /\ NearV(n, Axis(f[2] \div 2 + 1, 1 - 2 * (f[2] % 2)), 8)
    [] s.t = 4 -> f[1] = 4 /\ f[2] + 1 \in DOMAIN s.fn /\
                  LET fn == s.fn[f[2] + 1] IN \A i \in 1..3 : Near(n[i] * ISqrt(10000 * Len2(fn)), 100000 * fn[i], 800 * ISqrt(Len2(fn)) + 2000)
HitPrim(s, x, n, f) == InPrim(s, x, 8) /\ Unit(n) /\ Reach(s, n) - Dot3(n, x) <= 14000 /\ InfoPrim(s, x, n, f)
HitSolid(s, x, n, f) ==
  IF s.t = 5 THEN f[1] = 5 /\ f[2] + 1 \in DOMAIN s.ps /\
                  LET p == s.ps[f[2] + 1] IN HitPrim(p, PartLoc(p, x), LocV(p.m, n), SubSeq(f, 3, Len(f)))
  ELSE HitPrim(s, x, n, f)
\* the point of the segment at fraction f / den, world, thousandths
At(p0, p1, f, den) == [i \in 1..3 |-> 1000 * p0[i] + IF den = F THEN Rnd((p1[i] - p0[i]) * f, 100) ELSE Rnd((p1[i] - p0[i]) * f * 1000, den)]
NS == 40
SolidOK(b, p0, p1, r) ==
  LET L(x) == Loc(b.pos, b.m, x)
  IN IF InSolid(b, L(Scale(1000, p0)), 25) THEN r.h => r.f \in 0..F            \* starts inside: not specified further
     ELSE IF r.h THEN
       /\ r.f \in 0..F /\ Unit(r.n)
       /\ Dot3(r.n, Sub(p1, p0)) <= 100 \/ \A k \in 0..NS : ~InSolid(b, L(At(p0, p1, k, NS)), -25)      \* entering, or just touching
       /\ HitSolid(b, L(At(p0, p1, r.f, F)), LocV(b.m, r.n), r.i)
       /\ b.t = 5 => \A k \in 0..((r.f * NS) \div F) : ~InSolid(b, L(At(p0, p1, k, NS)), -25)
     ELSE \A k \in 0..NS : ~InSolid(b, L(At(p0, p1, k, NS)), -25)
\* planes and triangles are surfaces: n . x = c
PlaneOK(b, p0, p1, r) ==
  LET s0 == Dot3(b.n, p0) - 25 * b.c
      s1 == Dot3(b.n, p1) - 25 * b.c
  IN IF r.h THEN /\ r.f \in 0..F /\ Unit(r.n)
                 /\ Near(Dot3(b.n, At(p0, p1, r.f, F)), 25000 * b.c, 25 * 8)
                 /\ NearV(r.n, Scale(40, b.n), 3) /\ r.i = <<0>>
     ELSE ~(Sgn(s0) * Sgn(s1) < 0)
TriN(T) == Cross3(Sub(T[2], T[1]), Sub(T[3], T[1]))
Vol(p, d, a, b) == Dot3(d, Cross3(Sub(a, p), Sub(b, p)))
Pierces(T, p0, p1) ==
  LET n == TriN(T)
      d == Sub(p1, p0)
      v == [i \in 1..3 |-> Sgn(Vol(p0, d, T[i], T[(i % 3) + 1]))]
  IN Sgn(Dot3(n, Sub(p0, T[1]))) * Sgn(Dot3(n, Sub(p1, T[1]))) < 0 /\ v[1] # 0 /\ v[1] = v[2] /\ v[2] = v[3]
OnTri(T, x) ==
  LET n == TriN(T)
      ln == ISqrt(Len2(n)) + 1
  IN /\ Near(Dot3(n, x), 1000 * Dot3(n, T[1]), 8 * ln)
     /\ \A i \in 1..3 : LET e == Sub(T[(i % 3) + 1], T[i]) IN
           Dot3(Cross3(n, e), Sub(x, Scale(1000, T[i]))) >= -10 * ln * (ISqrt(Len2(e)) + 1)
MeshOK(b, p0, p1, r) ==
  LET earlier(T, f) == LET n == TriN(T)
                           s0 == Abs(Dot3(n, Sub(p0, T[1])))
                           s1 == Abs(Dot3(n, Sub(p1, T[1])))
                       IN s0 * 20000 < (f \div 5 - 2) * (s0 + s1)
  IN IF r.h THEN /\ r.f \in 0..F /\ Unit(r.n)
                 /\ r.i[1] = 6 /\ r.i[2] + 1 \in DOMAIN b.ts
                 /\ LET T == b.ts[r.i[2] + 1]
                        n == TriN(T)
                    IN /\ OnTri(T, At(p0, p1, r.f, F))
                       /\ \A i \in 1..3 : Near(r.n[i] * ISqrt(10000 * Len2(n)), 100000 * n[i], 800 * ISqrt(Len2(n)) + 2000)
                 /\ \A k \in DOMAIN b.ts : ~(Pierces(b.ts[k], p0, p1) /\ earlier(b.ts[k], r.f))
     ELSE \A k \in DOMAIN b.ts : ~Pierces(b.ts[k], p0, p1)
OneOK(b, p0, p1, r) == CASE b.t <= 5 -> SolidOK(b, p0, p1, r) [] b.t = 6 -> PlaneOK(b, p0, p1, r) [] b.t = 7 -> MeshOK(b, p0, p1, r)
(* The answers one[k] for each body alone and the answer all for the world    *)
(* without those in ig.  all.b is the body reported.                          *)
RayOK(p0, p1, one, all, ig) ==
  /\ DOMAIN one = DOMAIN bodies
  /\ \A k \in DOMAIN one : one[k].c = 1 /\ one[k].b \in {0, k} /\ (one[k].b = k) = one[k].h /\ OneOK(bodies[k], p0, p1, one[k])
  /\ LET H == {k \in DOMAIN one : k \notin ig /\ one[k].h}
     IN /\ all.c = 1 /\ all.h = (H # {})
        /\ all.h => /\ all.b \in H /\ \A k \in H : all.f <= one[k].f
                    /\ all.f = one[all.b].f /\ all.n = one[all.b].n /\ all.i = one[all.b].i
        /\ ~all.h => all.b = 0
World(bs) == bodies' = bs
Move(k, pos, m) == bodies' = [bodies EXCEPT ![k].pos = pos, ![k].m = m]
Drop(k) == bodies' = [j \in 1..Len(bodies) - 1 |-> IF j < k THEN bodies[j] ELSE bodies[j + 1]]
=============================================================================
