------------------------------ MODULE BoxTables -------------------------------
(* The box as a combinatorial object: whatever numbering the code uses, its   *)
(* vertices, edges, faces and their relations must describe one box.          *)
EXTENDS Support
K3(v) == Scale(1000, v)
Box(e) ==
  LET V == e.v
      C == {K3(c) : c \in Corners(e.h)}
      at(x) == CHOOSE i \in 1..8 : V[i] = x
      world(x) == [i \in 1..3 |-> (Rot(e.m, x)[i]) \div 25 + 1000 * e.pos[i]]    \* of a thousandths point
      worldDir(x) == [i \in 1..3 |-> (Rot(e.m, x)[i]) \div 25]
      diff(x, y) == {i \in 1..3 : x[i] # y[i]}
      next(k) == (k % 4) + 1
      axisOf(n) == CHOOSE i \in 1..3 : n[i] # 0
  IN \* vertices are the eight corners
     /\ {V[i] : i \in 1..8} = C
     \* edges: all twelve pairs of corners that differ in one coordinate
     /\ \A i \in 1..12 : {e.eg[i][1], e.eg[i][2]} \subseteq C /\ Cardinality(diff(e.eg[i][1], e.eg[i][2])) = 1
     /\ Cardinality({{e.eg[i][1], e.eg[i][2]} : i \in 1..12}) = 12
     \* faces: outward unit normals, all different; corners in that plane, counter-clockwise
     /\ {e.fn[i] : i \in 1..6} = {K3(n) : n \in {<<1,0,0>>, <<-1,0,0>>, <<0,1,0>>, <<0,-1,0>>, <<0,0,1>>, <<0,0,-1>>}}
     /\ \A i \in 1..6 : LET a == axisOf(e.fn[i]) IN
          /\ Cardinality({e.f[i][k] : k \in 1..4}) = 4
          /\ \A k \in 1..4 : /\ e.f[i][k] \in C /\ e.f[i][k][a] * Sgn(e.fn[i][a]) = 1000 * e.h[a]
                             /\ e.fv[i][k] \in 1..8 /\ V[e.fv[i][k]] = e.f[i][k]
                             /\ LET u == Sub(e.f[i][next(k)], e.f[i][k])
                                    w == Sub(e.f[i][next(next(k))], e.f[i][next(k)])
                                    h(x) == [j \in 1..3 |-> x[j] \div 1000]
                                IN Cross3(h(u), h(w))[a] * Sgn(e.fn[i][a]) > 0
                             \* the k-th edge of a face joins its k-th and next corner
                             /\ e.fe[i][k] \in 1..12
                             /\ {e.eg[e.fe[i][k]][1], e.eg[e.fe[i][k]][2]} = {e.f[i][k], e.f[i][next(k)]}
     \* looking up an edge by its vertices, in either order
     /\ \A i, j \in 1..8 : Cardinality(diff(V[i], V[j])) = 1 =>
          e.ei[i][j] \in 1..12 /\ {e.eg[e.ei[i][j]][1], e.eg[e.ei[i][j]][2]} = {V[i], V[j]}
     \* the two faces of an edge contain it, and their normals are given in that order
     /\ \A i \in 1..12 : /\ e.ef[i][1] # e.ef[i][2]
                         /\ \A k \in 1..2 : /\ e.ef[i][k] \in 1..6
                                            /\ {e.eg[i][1], e.eg[i][2]} \subseteq {e.f[e.ef[i][k]][j] : j \in 1..4}
                                            /\ e.en[i][k] = e.fn[e.ef[i][k]]
                                            /\ NearV(e.enw[i][k], worldDir(e.en[i][k]), 2)
     \* tangent frames: normal in the middle, right-handed, with the extents along the outer columns
     /\ \A i \in 1..6 :
          LET loc == [k \in 1..3 |-> [j \in 1..3 |-> (RotT(e.m, e.fb[i][k])[j] + 12) \div 25]]   \* object space
              near(v) == [j \in 1..3 |-> IF v[j] > 500 THEN 1 ELSE IF v[j] < -500 THEN -1 ELSE 0]
              b == [k \in 1..3 |-> near(loc[k])]
          IN /\ \A k \in 1..3 : NearV(loc[k], K3(b[k]), 4) /\ Cardinality({j \in 1..3 : b[k][j] # 0}) = 1
             /\ K3(b[2]) = e.fn[i] /\ Cross3(b[1], b[2]) = b[3]
             /\ e.fh[i][1] = 1000 * e.h[axisOf(b[1])] /\ e.fh[i][2] = 1000 * e.h[axisOf(b[3])]
     \* world space versions
     /\ \A i \in 1..8 : NearV(e.vw[i], world(V[i]), 3)
     /\ \A i \in 1..12, k \in 1..2 : NearV(e.ew[i][k], world(e.eg[i][k]), 3)
     /\ \A i \in 1..6 : /\ \A k \in 1..4 : NearV(e.fw[i][k], world(e.f[i][k]), 3)
                        /\ NearV(e.fnw[i], worldDir(e.fn[i]), 2)
                        /\ NearV(e.fc[i], world([j \in 1..3 |-> IF e.fn[i][j] = 0 THEN 0 ELSE Sgn(e.fn[i][j]) * 1000 * e.h[j]]), 3)
(* x on a face (quarters): coordinates beyond the trimmed extent select the feature *)
ClosestFeature(e) ==
  LET other == (1..3) \ {e.ax}
      beyond(i) == 2 * Abs(e.x[i]) > 8 * e.h[i] - e.tol          \* eighths
      fix == {i \in other : beyond(i)} \cup {e.ax}
      sg(i) == IF i = e.ax THEN e.s ELSE Sgn(e.x[i])
      want == {c \in Corners(e.h) : \A i \in fix : Sgn(c[i]) = sg(i)}
  IN /\ \A i \in other : 2 * Abs(e.x[i]) # 8 * e.h[i] - e.tol
     /\ e.t = 3 - Cardinality(fix)
     /\ {e.v[k] : k \in DOMAIN e.v} = {K3(c) : c \in want} /\ Len(e.v) = Cardinality(want)
SupportFace(e) ==       \* the face normal is one that best aligns with the direction
  \A n \in {<<1,0,0>>, <<-1,0,0>>, <<0,1,0>>, <<0,-1,0>>, <<0,0,1>>, <<0,0,-1>>} : Dot3(e.n, e.d) >= 1000 * Dot3(n, e.d)
(* Closed box mesh: six faces of four corners, each outward.                  *)
BoxMesh(e) ==
  /\ {e.v[i] : i \in DOMAIN e.v} = {K3(c) : c \in Corners(e.h)} /\ Len(e.v) = 8
  /\ Len(e.f) = 12 /\ Len(e.i) = 24
  /\ Cardinality({e.f[2 * k - 1] : k \in 1..6}) = 6
  /\ LET vs(k) == [j \in 1..4 |-> [c \in 1..3 |-> e.v[e.i[e.f[2 * k - 1] + j]][c] \div 1000]]
         nrm(k) == Cross3(Sub(vs(k)[2], vs(k)[1]), Sub(vs(k)[3], vs(k)[2]))
     IN /\ \A k \in 1..6 : /\ e.f[2 * k] = 4 /\ e.f[2 * k - 1] + 4 <= 24
                           /\ Cardinality({i \in 1..3 : nrm(k)[i] # 0}) = 1
                           /\ \A j \in 1..4 : Dot3(nrm(k), vs(k)[j]) = Dot3(nrm(k), vs(k)[1]) /\ Dot3(nrm(k), vs(k)[1]) > 0
                           /\ Cardinality({vs(k)[j] : j \in 1..4}) = 4
        /\ Cardinality({[i \in 1..3 |-> Sgn(nrm(k)[i])] : k \in 1..6}) = 6
(* Plane grid mesh: a regular grid in the y = 0 plane, covered once by        *)
(* triangles facing up.                                                       *)
PlaneMesh(e) ==
  LET n == e.nx * e.nz
      T == Len(e.i) \div 3
      t(k) == <<e.v[e.i[3 * k - 2]], e.v[e.i[3 * k - 1]], e.v[e.i[3 * k]]>>
      \* grid coordinates of a vertex index
      gi(i) == <<(i - 1) % e.nx, (i - 1) \div e.nx>>
      g(k) == <<gi(e.i[3 * k - 2]), gi(e.i[3 * k - 1]), gi(e.i[3 * k])>>
      \* with x to the right and z towards the viewer, up-facing means z cross x > 0
      area(k) == -Perp2(Sub(g(k)[2], g(k)[1]), Sub(g(k)[3], g(k)[1]))
      cell(k) == <<SetMin({g(k)[j][1] : j \in 1..3}), SetMin({g(k)[j][2] : j \in 1..3})>>
  IN /\ Len(e.v) = n /\ T = 2 * (e.nx - 1) * (e.nz - 1)
     /\ \A i \in 1..n : /\ e.v[i][2] = 0
                        /\ Near(e.v[i][1] * 2 * (e.nx - 1), 1000 * e.ex * (2 * gi(i)[1] - (e.nx - 1)), 4 * e.nx)
                        /\ Near(e.v[i][3] * 2 * (e.nz - 1), 1000 * e.ez * (2 * gi(i)[2] - (e.nz - 1)), 4 * e.nz)
     /\ \A k \in 1..T : /\ {e.i[3 * k - 2], e.i[3 * k - 1], e.i[3 * k]} \subseteq 1..n
                        /\ area(k) = 1
                        /\ SetMax({g(k)[j][1] : j \in 1..3}) = cell(k)[1] + 1 /\ SetMax({g(k)[j][2] : j \in 1..3}) = cell(k)[2] + 1
     \* two triangles per cell, on opposite sides of one diagonal
     /\ \A j, k \in 1..T : (j # k /\ cell(j) = cell(k)) => Cardinality({g(j)[i] : i \in 1..3} \cap {g(k)[i] : i \in 1..3}) = 2
     /\ Cardinality({cell(k) : k \in 1..T}) = (e.nx - 1) * (e.nz - 1)
     /\ \A k \in 1..T : Cardinality({j \in 1..T : cell(j) = cell(k)}) = 2
=============================================================================
