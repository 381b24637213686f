------------------------------- MODULE Inertia -------------------------------
(* Moments of inertia of solids of integer dimensions, exactly; reported      *)
(* matrices are in thousandths.  m is the mass.                               *)
EXTENDS Geo
Vol == INSTANCE Volume
\* reported value x (thousandths) equals num / den
Is(x, num, den) == Near(x, (1000 * num) \div den, 3 + Abs((1000 * num) \div den) \div 5000)
Diag(M, d) == \A i, j \in 1..3 : IF i = j THEN Near(M[i][i], d[i], 3 + Abs(d[i]) \div 5000) ELSE Abs(M[i][j]) <= 3
Thou(num, den) == (1000 * num) \div den
Along(ax, a, b) == [i \in 1..3 |-> IF i = ax + 1 THEN a ELSE b]
BoxI(m, h) == [i \in 1..3 |-> Thou(m * (Dot3(h, h) - h[i] * h[i]), 3)]
SphereI(m, r) == [i \in 1..3 |-> Thou(2 * m * r * r, 5)]
\* l: half length
CylI(m, r, l, ax) == Along(ax, Thou(m * r * r, 2), Thou(m * (3 * r * r + 4 * l * l), 12))
\* cylinder and two half balls share the mass as their volumes: 6l : 4r; the
\* centre of mass of a half ball lies 3r/8 from its disc, its own transversal moment is 83/320 m r^2
CapI(m, r, l, ax) ==
    LET s == 6 * l + 4 * r IN
    Along(ax, Thou(m * r * r * (6 * l * 5 + 4 * r * 4), 10 * s),
              (1000 * m * 6 * l * (3 * r * r + 4 * l * l)) \div (12 * s) + (1000 * m * r * (83 * r * r + 5 * (8 * l + 3 * r) * (8 * l + 3 * r))) \div (80 * s))
HollowCylI(m, ri, ro, l, ax) == LET q == ri * ri + ro * ro IN Along(ax, Thou(m * q, 2), Thou(m * (3 * q + 4 * l * l), 12))
\* second moments of a polyhedron about the origin: sum over tetrahedra to the origin, times 120
S2(v, F, i, j) == Vol!Acc(Vol!Fans(F), LAMBDA t : Vol!Det(v, t) *
    (v[t[1]][i] * v[t[1]][j] + v[t[2]][i] * v[t[2]][j] + v[t[3]][i] * v[t[3]][j]
     + (v[t[1]][i] + v[t[2]][i] + v[t[3]][i]) * (v[t[1]][j] + v[t[2]][j] + v[t[3]][j])), 0)
PolyI(m, v, F) ==
    LET V6 == Vol!SixVol(v, F)
        s == [i \in 1..3 |-> [j \in 1..3 |-> S2(v, F, i, j)]]
        tr == s[1][1] + s[2][2] + s[3][3]
    IN [i \in 1..3 |-> [j \in 1..3 |-> (50 * m * ((IF i = j THEN tr ELSE 0) - s[i][j])) \div V6]]
NearM(A, B) == LET big == 4 + SetMax({Abs(B[i][i]) : i \in 1..3}) \div 3000 IN \A i, j \in 1..3 : Near(A[i][j], B[i][j], big)
DiagM(d) == [i \in 1..3 |-> [j \in 1..3 |-> IF i = j THEN d[i] ELSE 0]]
\* R / 25 times M times its transpose
RotM(R, M) == [i \in 1..3 |-> [j \in 1..3 |->
    (LET row(k) == Dot3(R[i], <<M[1][k], M[2][k], M[3][k]>>) \div 25 IN Dot3(<<row(1), row(2), row(3)>>, R[j])) \div 25]]
Steiner(m1000, p) == [i \in 1..3 |-> [j \in 1..3 |-> m1000 * ((IF i = j THEN Dot3(p, p) ELSE 0) - p[i] * p[j])]]
AddM(A, B) == [i \in 1..3 |-> [j \in 1..3 |-> A[i][j] + B[i][j]]]
RECURSIVE SumM(_)
SumM(s) == IF s = <<>> THEN DiagM(<<0, 0, 0>>) ELSE AddM(Head(s), SumM(Tail(s)))
Prim(e) ==
    /\ Diag(e.bo, BoxI(e.m, e.h)) /\ Diag(e.sp, SphereI(e.m, e.r))
    /\ Diag(e.cy, CylI(e.m, e.r, e.l, e.ax)) /\ Diag(e.ca, CapI(e.m, e.r, e.l, e.ax))
    /\ \A i \in 1..3 : Near(e.hc[i], HollowCylI(e.m, e.r, e.r + 1, e.l, e.ax)[i], 3 + e.hc[i] \div 5000)
    /\ Is(e.hs, 2 * e.m * e.r * e.r, 3)
Poly(e) == NearM(e.I, PolyI(e.m, e.v, e.f))
Shift(e) == NearM(e.I, AddM(DiagM(Scale(1000, e.d)), Steiner(1000 * e.m, e.p)))
\* parts with volumes in the same unit; own moment per unit mass (thousandths) scaled by the part's share
PartI(p) == CASE p.t = 0 -> DiagM(SphereI(100, p.r)) [] p.t = 1 -> DiagM(CylI(100, p.r, p.l, p.ax))
              [] p.t = 2 -> DiagM(CapI(100, p.r, p.l, p.ax)) [] p.t = 3 -> DiagM(BoxI(100, p.h)) [] p.t = 4 -> PolyI(100, p.v, p.f)
PartV(p) == CASE p.t = 0 -> 4 * p.r * p.r * p.r [] p.t = 1 -> 6 * p.r * p.r * p.l [] p.t = 2 -> 4 * p.r * p.r * p.r + 6 * p.r * p.r * p.l
              [] p.t = 3 -> 48 * p.h[1] * p.h[2] * p.h[3] [] p.t = 4 -> Vol!SixVol(p.v, p.f)
Compound(e) ==
    LET total == Sum([k \in DOMAIN e.ps |-> PartV(e.ps[k])])
        share(k) == (1000 * e.m * PartV(e.ps[k])) \div total            \* thousandths of mass
        scaled(M, s) == [i \in 1..3 |-> [j \in 1..3 |-> ((M[i][j] \div 10) * s) \div 10000]]
        part(k) == AddM(scaled(RotM(e.ps[k].R, PartI(e.ps[k])), share(k)), Steiner(share(k), e.ps[k].p))
        B == SumM([k \in DOMAIN e.ps |-> part(k)])
        big == 40 + SetMax({Abs(B[i][i]) : i \in 1..3}) \div 500
    IN \A i, j \in 1..3 : Near(e.I[i][j], B[i][j], big)
\* the inverse in world space: R I^-1 R^T, checked by multiplying back (W * R I R^T = 1)
World(e) ==
    LET IW == RotM(e.R, DiagM(Scale(1000, e.d)))             \* thousandths
    IN \A i, j \in 1..3 : Near(Dot3(e.W[i], <<IW[1][j], IW[2][j], IW[3][j]>>), IF i = j THEN 10000000 ELSE 0, 60000)
=============================================================================
