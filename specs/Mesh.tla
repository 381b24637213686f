--------------------------------- MODULE Mesh ---------------------------------
(* What a list of triangles implies: edges, faces of an edge, boundary,       *)
(* convexity, normals; and interpolation of per-vertex values.                *)
EXTENDS Geo
K3(v) == Scale(1000, v)
Nrm(v, t) == Cross3(Sub(v[t[2]], v[t[1]]), Sub(v[t[3]], v[t[2]]))
EdgeSet(t) == {{t[1], t[2]}, {t[2], t[3]}, {t[3], t[1]}}
\* unit vector u (thousandths) has the direction of the integer vector n
Along(u, n) == LET len == ISqrt(10000 * Dot3(n, n)) IN \A i \in 1..3 : Abs(u[i] * len - 100000 * n[i]) <= 4 * len
Adjacency(e) ==
  LET T == DOMAIN e.t
      Ed == DOMAIN e.ev
      all == UNION {EdgeSet(e.t[i]) : i \in T}
      faces(x) == {i \in T : x \in EdgeSet(e.t[i])}
      vs(k) == {e.ev[k][1], e.ev[k][2]}
      nx(k) == (k % 3) + 1
  IN /\ e.nv = Len(e.v) /\ e.nt = Len(e.t) /\ Len(e.tv) = e.nt
     /\ \A i \in DOMAIN e.v : e.vp[i] = K3(e.v[i])
     \* triangles keep their vertices, in order
     /\ \A i \in T : e.fv[i] = e.t[i] /\ \A k \in 1..3 : e.tv[i][k] = K3(e.v[e.t[i][k]])
     \* each undirected edge once
     /\ {vs(k) : k \in Ed} = all /\ Len(e.ev) = Cardinality(all)
     /\ \A k \in Ed : e.ep[k][1] = K3(e.v[e.ev[k][1]]) /\ e.ep[k][2] = K3(e.v[e.ev[k][2]])
     /\ \A i \in T, k \in 1..3 : e.fe[i][k] \in Ed /\ vs(e.fe[i][k]) = {e.t[i][k], e.t[i][nx(k)]}
     /\ \A k \in Ed : /\ {e.ef[k][1], e.ef[k][2]} = faces(vs(k))
                      /\ e.bd[k] = (Cardinality(faces(vs(k))) = 1)
     /\ \A i \in T : Along(e.fn[i], Nrm(e.v, e.t[i]))
     \* convexity and adjacent normals
     /\ \A i \in T, k \in 1..3 :
          LET ed == e.fe[i][k]
              dir == Sub(e.v[e.t[i][nx(k)]], e.v[e.t[i][k]])
              n == Nrm(e.v, e.t[i])
              inw == Cross3(n, dir)                   \* points into the triangle
              other == faces(vs(ed)) \ {i}
          IN IF other = {}
             THEN /\ e.cx[ed]
                  /\ LET a == e.an[i][k] IN
                     /\ Near(Dot3(a, a), 1000000, 5000)
                     /\ Dot3(a, n) < 0 /\ Dot3(a, inw) < 0 /\ Abs(Dot3(a, dir)) <= 2 * (Abs(dir[1]) + Abs(dir[2]) + Abs(dir[3]))
             ELSE LET o == CHOOSE x \in other : TRUE
                      no == Nrm(e.v, e.t[o])
                      \* smaller multiple of the normal, so that products stay small
                      d == Dot3(no, inw)
                  IN /\ Along(e.an[i][k], no)
                     /\ d < 0 => e.cx[ed]
                     /\ d > 0 => ~e.cx[ed]
                     /\ d = 0 /\ Cardinality({j \in 1..3 : n[j] # 0}) = 1 => ~e.cx[ed]
     \* features of a triangle as features of the mesh
     /\ \A i \in T : /\ e.mf[i][1] = i
                     /\ \A k \in 1..3 : e.mf[i][1 + k] = e.fe[i][k] /\ e.mf[i][4 + k] = e.fv[i][k]
     /\ LET P == {e.v[e.t[i][k]] : i \in T, k \in 1..3} IN
        \A c \in 1..3 : e.box[1][c] = 1000 * SetMin({p[c] : p \in P}) /\ e.box[2][c] = 1000 * SetMax({p[c] : p \in P})
     /\ e.hf /\ e.hr /\ e.hm
(* values are eighths; k and bc are quarters                                  *)
Lin(a, b, k) == (125 * ((4 - k) * a + k * b)) \div 4
Mix(e) ==
  LET ef(x) == Lin(x[e.ev[1]], x[e.ev[2]], e.k)
      tf(x) == (125 * (e.bc[1] * x[e.tv[1]] + e.bc[2] * x[e.tv[2]] + e.bc[3] * x[e.tv[3]])) \div 4
  IN /\ e.vf = 125 * e.fr[e.v] /\ e.vr = 125 * e.re[e.v]
     /\ Near(e.ef, ef(e.fr), 2) /\ Near(e.er, ef(e.re), 2)
     /\ Near(e.pf, ef(e.fr), 3) /\ Near(e.pr, ef(e.re), 3)
     /\ Near(e.ff, tf(e.fr), 4) /\ Near(e.frr, tf(e.re), 4)
     /\ \A i \in 1..3 : Near(e.b[i], 250 * e.bc[i], 3)
     /\ e.vm = e.mi[e.v]
     /\ \A x \in {e.em, e.pm} : /\ Len(x) = 2 /\ \A i \in 1..2 : x[i][1] = e.mi[e.ev[i]]
                                /\ Near(x[1][2], 250 * (4 - e.k), 2) /\ Near(x[2][2], 250 * e.k, 2)
     /\ Len(e.fm) = 3 /\ \A i \in 1..3 : e.fm[i][1] = e.mi[e.tv[i]] /\ Near(e.fm[i][2], 250 * e.bc[i], 3)
     /\ Near(e.it, 250 * (e.bc[1] + 2 * e.bc[2] + 4 * e.bc[3]), 12)
(* Projection of a separating axis into the region of a triangle's feature:   *)
(* the face's normal for a face or a concave edge, the adjacent normal beyond *)
(* it, the axis itself between them.  Decisions closer than the rounding are  *)
(* left open.                                                                 *)
Clip(e) ==
  LET nx(k) == (k % 3) + 1
      pv(k) == ((k + 1) % 3) + 1
      dir(k) == Sub(e.p[nx(k)], e.p[k])
      out(k) == LET c == Cross3(dir(k), e.an[k]) IN c                    \* thousandths
      convex(k) == Dot3(e.tn, out(k)) \div 1000                          \* thousandths, negative if convex
      beyond(k) == Dot3(e.d, out(k)) \div e.n
      slack == 60
      isT == NearV(e.x, e.tn, 2)
      isA(k) == NearV(e.x, e.an[k], 2)
      same == \A i \in 1..3 : Abs(e.x[i] * e.n - 1000 * e.d[i]) <= 2 * e.n
      edge(k) == \/ convex(k) >= -slack /\ isT
                 \/ convex(k) <= slack /\ beyond(k) >= -slack /\ isA(k)
                 \/ convex(k) <= slack /\ beyond(k) <= slack /\ same
  IN CASE e.ft = 2 -> isT
       [] e.ft = 1 -> edge(e.fi)
       [] e.ft = 0 -> LET a == e.fi
                          b == pv(e.fi) IN
                      \/ beyond(a) >= beyond(b) - slack /\ edge(a)
                      \/ beyond(b) >= beyond(a) - slack /\ edge(b)
(* queries                                                                    *)
Exactly(vis, S) == Range(vis) = S /\ Len(vis) = Cardinality(S)
Region(e) == Exactly(e.vis, {i \in DOMAIN e.b : BoxOverlap(e.b[i], <<e.p, e.q>>)})
Ray(e) == Exactly(e.vis, {i \in DOMAIN e.b : SegBox(e.p, e.q, e.b[i])})
VisitAll(e) == /\ Len(e.all) = Len(e.t) /\ {e.all[k][1] : k \in DOMAIN e.all} = DOMAIN e.t
               /\ \A k \in DOMAIN e.all : \A j \in 1..3 : e.all[k][2][j] = K3(e.v[e.t[e.all[k][1]][j]])
=============================================================================
