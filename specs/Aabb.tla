--------------------------------- MODULE Aabb ---------------------------------
(* Bounding boxes.  Shapes have integer dimensions, position pos, rotation    *)
(* m / 25; reported boxes b = <<lo, hi>> are in thousandths.                  *)
EXTENDS Support
\* the box whose centre is pos and half extents (thousandths) x
Tight(b, pos, x, tol) == \A i \in 1..3 : Near(b[1][i], 1000 * pos[i] - x[i], tol) /\ Near(b[2][i], 1000 * pos[i] + x[i], tol)
BoxExt(h, m) == [i \in 1..3 |-> 40 * (Abs(m[i][1]) * h[1] + Abs(m[i][2]) * h[2] + Abs(m[i][3]) * h[3])]
SegExt(l, ax, m) == [i \in 1..3 |-> 40 * Abs(m[i][ax + 1]) * l]
\* half extent of a disc of radius r across the axis, along axis i
DiscExt(r, ax, m) == [i \in 1..3 |-> (40 * r * ISqrt(2500 * (625 - m[i][ax + 1] * m[i][ax + 1]))) \div 50]
CylExt(r, l, ax, m) == Add(SegExt(l, ax, m), DiscExt(r, ax, m))
CapExt(r, l, ax, m) == Add(SegExt(l, ax, m), <<1000 * r, 1000 * r, 1000 * r>>)
\* smallest box of a set of points given times s
PtBox(P, s) == [k \in 1..2 |-> [i \in 1..3 |-> (1000 * (IF k = 1 THEN SetMin({p[i] : p \in P}) ELSE SetMax({p[i] : p \in P}))) \div s]]
NearBox(b, c, tol) == NearV(b[1], c[1], tol) /\ NearV(b[2], c[2], tol)
Prim(e) ==
    /\ Tight(e.bo, e.pos, BoxExt(e.h, e.m), 3)
    /\ Tight(e.sp, e.pos, <<1000 * e.r, 1000 * e.r, 1000 * e.r>>, 2)
    /\ Tight(e.cy, e.pos, CylExt(e.r, e.l, e.ax, e.m), 30)
    /\ Tight(e.ca, e.pos, CapExt(e.r, e.l, e.ax, e.m), 3)
Cloud(e) ==
    /\ e.raw = PtBox(Range(e.v), 1) /\ e.it = e.raw
    /\ NearBox(e.w, PtBox({W(e.m, e.pos, p) : p \in Range(e.v)}, 25), 3)
    /\ NearBox(e.sh, e.w, 2) /\ NearBox(e.up, e.w, 3)
\* the image of a box is bounded by the images of its corners
BoxCorners(b) == {<<x, y, z>> : x \in {b[1][1], b[2][1]}, y \in {b[1][2], b[2][2]}, z \in {b[1][3], b[2][3]}}
World(e) ==
    /\ NearBox(e.w, PtBox({W(e.m, e.pos, p) : p \in BoxCorners(e.b)}, 25), 3)
    /\ NearBox(e.o, PtBox({RotT(e.m, Sub(p, e.pos)) : p \in BoxCorners(e.b)}, 25), 3)
\* compound: every part's own box, transformed, is inside, and each side is reached by one of them
PartExt(p) == CASE p.t = 0 -> <<1000 * p.r, 1000 * p.r, 1000 * p.r>> [] p.t = 1 -> CylExt(p.r, p.l, p.ax, p.R)
                [] p.t = 2 -> CapExt(p.r, p.l, p.ax, p.R) [] OTHER -> BoxExt(p.h, p.R)
PartBox(p) == IF p.t = 4 THEN PtBox({W(p.R, p.p, x) : x \in Range(p.v)}, 25)
              ELSE <<Sub(Scale(1000, p.p), PartExt(p)), Add(Scale(1000, p.p), PartExt(p))>>
Image(b, m, pos) ==       \* of a box in thousandths
    LET c == [i \in 1..3 |-> (b[1][i] + b[2][i]) \div 2]
        h == [i \in 1..3 |-> (b[2][i] - b[1][i]) \div 2]
        cw == [i \in 1..3 |-> Dot3(m[i], c) \div 25 + 1000 * pos[i]]
        hw == [i \in 1..3 |-> (Abs(m[i][1]) * h[1] + Abs(m[i][2]) * h[2] + Abs(m[i][3]) * h[3]) \div 25]
    IN <<Sub(cw, hw), Add(cw, hw)>>
Compound(e) ==
    /\ \A k \in DOMAIN e.ps : NearBox(e.nb[k], PartBox(e.ps[k]), 30)
    /\ NearBox(e.b, Union({Image(PartBox(e.ps[k]), e.m, e.pos) : k \in DOMAIN e.ps}), 80)
    /\ NearBox(e.root, Union({PartBox(e.ps[k]) : k \in DOMAIN e.ps}), 30)
MeshBox(e) == e.b = <<Scale(1000, Add(PtBox(Range(e.v), 1000)[1], e.pos)), Scale(1000, Add(PtBox(Range(e.v), 1000)[2], e.pos))>>
\* planes: unbounded below the plane, or everywhere if the normal is not along an axis; in units
Plane(e) ==
    LET B == 99999
    IN \A i \in 1..3 :
        /\ e.b[1][i] = -B \/ (e.n[i] = -1 /\ e.b[1][i] = -e.c) \/ e.b[1][i] = -B + e.n[i] * e.c
        /\ (e.n[i] = -1 => e.b[1][i] = -e.c) /\ (e.n[i] = 1 => e.b[2][i] = e.c)
        /\ (e.n[i] # -1 => e.b[1][i] <= -B + Abs(e.c)) /\ (e.n[i] # 1 => e.b[2][i] >= B - Abs(e.c))
\* algebra over closed boxes of integer points (recorded in halves)
Algebra(e) ==
    LET a == e.a
        b == e.b
    IN /\ e.is = BoxOverlap(a, b) /\ e.is2 = e.is
       /\ e.en = Union({a, b})
       /\ e.ca = BoxIn(b, a) /\ e.cp = PtIn(e.p, a)
       /\ e.ctr2 = Add(a[1], a[2]) /\ e.sz = Sub(a[2], a[1])
       /\ e.ar = 2 * (e.sz[1] * e.sz[2] + e.sz[2] * e.sz[3] + e.sz[3] * e.sz[1])
       /\ e.in = <<Add(a[1], e.v), Sub(a[2], e.v)>>
=============================================================================
