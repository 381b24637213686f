------------------------------ MODULE ConvexMesh ------------------------------
(* What the faces of a convex polyhedron imply: normals, edges with their two *)
(* faces, neighbours, distinct normals and edge directions, and the rotated   *)
(* copy.  Vertices v are integer, faces f list 1-based vertices               *)
(* counter-clockwise; reported normals and rotated data are in 20000ths.      *)
EXTENDS Geo
Q == 20000
Next(f, k) == f[(k % Len(f)) + 1]
Directed(F) == UNION {{<<F[i][k], Next(F[i], k), i>> : k \in DOMAIN F[i]} : i \in DOMAIN F}
\* an outward normal of a face: the sum of the cross products of a fan (exact)
RECURSIVE FanSum(_, _, _)
FanSum(v, f, k) == IF k >= Len(f) THEN <<0, 0, 0>>
                   ELSE Add(Cross3(Sub(v[f[k]], v[f[1]]), Sub(v[f[k + 1]], v[f[1]])), FanSum(v, f, k + 1))
FaceN(v, f) == FanSum(v, f, 2)
\* u is the unit vector along integer vector n
UnitAlong(u, n, tol) ==
    /\ Near(Dot3(u, u), Q * Q, 4 * Q)
    /\ LET s == Abs(n[1]) + Abs(n[2]) + Abs(n[3]) IN \A i \in 1..3 : Abs(Cross3(u, n)[i]) <= s * tol
    /\ Dot3(u, n) > 0
\* exact comparison of directions: cos^2 against (1 - 0.0006)^2
Cos2(a, b) == <<Dot3(a, b) * Dot3(a, b), Len2(a) * Len2(b)>>
\* a tolerance apart from the boundary decides, in between either answer is right
Similar(a, b) == LET c == Cos2(a, b) IN 1000 * (c[2] - c[1]) <= (13 * c[2]) \div 10
Different(a, b) == LET c == Cos2(a, b) IN 1000 * (c[2] - c[1]) >= (11 * c[2]) \div 10
Edge(e, k) == <<e.ed[2 * k - 1], e.ed[2 * k]>>
NumEdges(e) == Len(e.ed) \div 2
Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
Normals(e) == /\ Len(e.nm) = Len(e.f)
              /\ \A i \in DOMAIN e.f : UnitAlong(e.nm[i], FaceN(e.v, e.f[i]), 12)
Edges(e) ==
    LET D == Directed(e.f)
        und == {{d[1], d[2]} : d \in D}
    IN /\ Len(e.ed) = 2 * Cardinality(und) /\ Len(e.ef) = Len(e.ed) /\ Len(e.ev) = Len(e.ed) /\ Len(e.en) = Len(e.ed)
       /\ {{Edge(e, k)[1], Edge(e, k)[2]} : k \in 1..NumEdges(e)} = und
       /\ \A k \in 1..NumEdges(e) :
            LET x == Edge(e, k) IN
            \* the edge runs along its first face and against its second one
            /\ <<x[1], x[2], e.ef[2 * k - 1]>> \in D
            /\ \/ <<x[2], x[1], e.ef[2 * k]>> \in D
               \/ e.ef[2 * k] = 0 /\ ~\E d \in D : d[1] = x[2] /\ d[2] = x[1]
            /\ e.ev[2 * k - 1] = e.pv[x[1]] /\ e.ev[2 * k] = e.pv[x[2]]
            /\ e.en[2 * k - 1] = e.nm[e.ef[2 * k - 1]]
            /\ e.en[2 * k] = (IF e.ef[2 * k] = 0 THEN <<0, 0, 0>> ELSE e.nm[e.ef[2 * k]])
            /\ e.ge[k] = <<x[1], x[2], e.ef[2 * k - 1], e.ef[2 * k]>>
            /\ NearV(e.gd[k], Sub(e.pv[x[2]], e.pv[x[1]]), 2)
Neighbours(e) ==
    LET und == {{d[1], d[2]} : d \in Directed(e.f)}
        of(i) == SubSeq(e.ni, e.ns[i] + 1, e.ns[i + 1])
    IN /\ Len(e.ns) = Len(e.v) + 1 /\ e.ns[1] = 0 /\ e.ns[Len(e.v) + 1] = Len(e.ni)
       /\ \A i \in DOMAIN e.v : /\ e.ns[i] <= e.ns[i + 1]
                               /\ Distinct(of(i))
                               /\ Range(of(i)) = {j \in DOMAIN e.v : {i, j} \in und /\ j # i}
Relevant(e) ==
    LET n(i) == e.nm[i]
        same(i, j) == Dot3(n(i), n(j)) \div Q >= 19985       \* the tolerance is at 19988
        diff(i, j) == Dot3(n(i), n(j)) \div Q <= 19990
        d(k) == Sub(e.v[Edge(e, k)[2]], e.v[Edge(e, k)[1]])
    IN /\ Len(e.rn) = Len(e.rf) /\ \A k \in DOMAIN e.rf : e.rn[k] = e.nm[e.rf[k]]
       /\ \A k, m \in DOMAIN e.rf : k # m => diff(e.rf[k], e.rf[m])
       /\ \A i \in DOMAIN e.f : \E k \in DOMAIN e.rf : i = e.rf[k] \/ same(i, e.rf[k])
       /\ \A k, m \in DOMAIN e.re : k # m => Different(d(e.re[k]), d(e.re[m]))
       /\ \A i \in 1..NumEdges(e) : \E k \in DOMAIN e.re : i = e.re[k] \/ Similar(d(i), d(e.re[k]))
\* a vector rotated by the matrix m / 25
RotatedV(x, y, m) == \A i \in 1..3 : Near(25 * y[i], Dot3(m[i], x), 25 * 12)
RotatedList(a, b, m) == Len(a) = Len(b) /\ \A i \in DOMAIN a : RotatedV(a[i], b[i], m)
Rotated(e) == /\ RotatedList(e.pv, e.rv, e.m) /\ RotatedList(e.nm, e.rnm, e.m) /\ RotatedList(e.rn, e.rrn, e.m)
              /\ RotatedList(e.ev, e.rev, e.m) /\ RotatedList(e.en, e.ren, e.m)
              /\ \A k \in 1..NumEdges(e) : /\ e.rge[k] = <<e.rev[2 * k - 1], e.rev[2 * k], e.ren[2 * k - 1], e.ren[2 * k]>>
                                           /\ NearV(e.rgd[k], Sub(e.rev[2 * k], e.rev[2 * k - 1]), 2)
\* positions: as given, or relative to the centroid (thousandths), which the volume specification decides
Vol == INSTANCE Volume
Placed(e) ==
    IF e.shifted
    THEN LET V6 == Vol!SixVol(e.v, e.f)
             c(i) == (1000 * Vol!Moment(e.v, e.f, i)) \div (4 * V6)
         IN \A k \in DOMAIN e.v : \A i \in 1..3 : Near(e.pv[k][i], 20 * (1000 * e.v[k][i] - c(i)), 100)
    ELSE \A k \in DOMAIN e.v : \A i \in 1..3 : e.pv[k][i] = Q * e.v[k][i]
Mesh(e) == Placed(e) /\ Normals(e) /\ Edges(e) /\ Neighbours(e) /\ Relevant(e) /\ Rotated(e) /\ e.ok
=============================================================================
