------------------------------- MODULE Algebra -------------------------------
(* Vector, matrix, quaternion and transform algebra over exact operands.      *)
(* Vectors <<x, y, z>>, matrices are three rows, quaternions <<x, y, z, w>>.  *)
(* Results come scaled by K = 10000 (operands are integers or rationals with  *)
(* a common denominator), so a result r of an operation with the exact value  *)
(* num/den is right if |r * den - K * num| is small.                          *)
EXTENDS Geo
K == 10000
Tol(num, den) == 3 * den + Abs(num) \div 50            \* 3e-4 absolute, 2e-6 relative of K
R(r, num, den) == Abs(r * den - K * num) <= Tol(num, den)
RV(r, num, den) == Len(r) = Len(num) /\ \A i \in DOMAIN num : R(r[i], num[i], den)
I1(r, num) == R(r, num, 1)
IV(r, num) == RV(r, num, 1)
IM(r, num) == \A i \in 1..3 : IV(r[i], num[i])
RM(r, num, den) == \A i \in 1..3 : RV(r[i], num[i], den)
Pt(f(_, _), a, b) == [i \in DOMAIN a |-> f(a[i], b[i])]
Mul2(x, y) == x * y
\* r is the (positive) square root of the integer n: (r/K)^2 = n
Root(r, n) == r >= 0 /\ LET t == r \div 10 IN          \* scaled by 1000
  /\ t <= 46000
  /\ Abs(t * t - n * 1000000) <= 4 * t + 4
Root2(r, n) == r >= 0 /\ IF n <= 2000 THEN Root(r, n) ELSE Abs((r \div 1000) * (r \div 1000) - n * 100) <= 4 * (r \div 1000) + 4
\* r (scaled by K) is the unit vector in the direction of the integer vector a
UnitOf(r, a) ==
  LET n2 == Sum([i \in DOMAIN a |-> a[i] * a[i]])
      l == ISqrt(n2 * 10000)                             \* 100 * length
  IN \A i \in DOMAIN a : Abs(r[i] * (l \div 10) - 10 * K * a[i]) <= 2 * l + ((K * 150 * Abs(a[i])) \div l)
Indices(S) == S
Cmp(e, a, b, c) == c = <<a = b, a # b,
     \A i \in DOMAIN a : a[i] > b[i], \A i \in DOMAIN a : a[i] < b[i],
     \A i \in DOMAIN a : a[i] >= b[i], \A i \in DOMAIN a : a[i] <= b[i]>>
Floor(n, d) == IF d > 0 THEN n \div d ELSE (-n) \div (-d)
Ceil(n, d) == -Floor(-n, d)

V3(e) == LET a == e.a  b == e.b  c == e.c  k == e.k IN
  /\ IV(e.add, Add(a, b)) /\ IV(e.sub, Sub(a, b)) /\ IV(e.neg, Neg(a))
  /\ IV(e.mul, Pt(Mul2, a, b))
  /\ \A i \in 1..3 : R(e.div[i], a[i] * Sgn(b[i]), Abs(b[i])) /\ R(e.sdiv[i], k * Sgn(b[i]), Abs(b[i]))
  /\ IV(e.muls, Scale(k, a)) /\ IV(e.smul, Scale(k, a))
  /\ RV(e.divs, Scale(Sgn(k), a), Abs(k))
  /\ e.cadd = e.add /\ e.csub = e.sub /\ e.cmuls = e.muls /\ e.cmul = e.mul
  /\ RV(e.cdivs, Scale(Sgn(k), a), Abs(k)) /\ e.cdiv = e.div
  /\ e.refs                                             \* compound operators refer to their left operand
  /\ Cmp(e, a, b, e.cmp)
  /\ I1(e.dot, Dot3(a, b)) /\ IV(e.cross, Cross3(a, b)) /\ I1(e.triple, Dot3(a, Cross3(b, c)))
  /\ I1(e.lsq, Len2(a)) /\ Root2(e.len, Len2(a)) /\ Root2(e.dist, Len2(Sub(a, b))) /\ I1(e.dsq, Len2(Sub(a, b)))
  /\ IV(e.min, [i \in 1..3 |-> Min2(a[i], b[i])]) /\ IV(e.max, [i \in 1..3 |-> Max2(a[i], b[i])])
  /\ IV(e.abs, [i \in 1..3 |-> Abs(a[i])])
  /\ \A i \in 1..4 : e.idx[i] \in 0..2
  /\ \A i \in 1..3 : /\ a[e.idx[1] + 1] <= a[i] /\ a[e.idx[2] + 1] >= a[i]
                     /\ Abs(a[e.idx[3] + 1]) <= Abs(a[i]) /\ Abs(a[e.idx[4] + 1]) >= Abs(a[i])
  /\ IV(e.floor, [i \in 1..3 |-> Floor(a[i], 4)]) /\ IV(e.ceil, [i \in 1..3 |-> Ceil(a[i], 4)])
  /\ RV(e.lerp, [i \in 1..3 |-> (4 - e.s) * a[i] + e.s * b[i]], 4)
  /\ RV(e.avg, [i \in 1..3 |-> a[i] + b[i] + c[i]], 3)
  /\ IF a = <<0, 0, 0>> THEN ~e.tryok /\ e.tryv = <<0, 0, 0>> ELSE e.tryok /\ UnitOf(e.tryv, a) /\ UnitOf(e.nrm, a)
  \* projection onto the plane of the unit normal n / m
  /\ LET n == e.n  m == e.m IN
     /\ RV(e.pdir, [i \in 1..3 |-> a[i] * m * m - n[i] * Dot3(a, n)], m * m)
     /\ RV(e.ppl, [i \in 1..3 |-> a[i] * m * m - n[i] * Dot3(Sub(a, b), n)], m * m)
  /\ e.each = <<0, 1, 2>> /\ IV(e.eachv, Scale(2, a))

V2(e) == LET a == e.a  b == e.b  k == e.k IN
  /\ IV(e.add, Add(a, b)) /\ IV(e.sub, Sub(a, b)) /\ IV(e.neg, Neg(a)) /\ IV(e.mul, Pt(Mul2, a, b))
  /\ IV(e.muls, Scale(k, a)) /\ IV(e.smul, Scale(k, a)) /\ RV(e.divs, Scale(Sgn(k), a), Abs(k))
  /\ \A i \in 1..2 : R(e.sdiv[i], k * Sgn(b[i]), Abs(b[i]))
  /\ e.cadd = e.add /\ e.csub = e.sub /\ e.cmuls = e.muls /\ RV(e.cdivs, Scale(Sgn(k), a), Abs(k))
  /\ I1(e.dot, Dot2(a, b)) /\ I1(e.perp, Perp2(a, b))
  /\ IV(e.orth, <<-a[2], a[1]>>)
  /\ I1(e.lsq, Dot2(a, a)) /\ Root2(e.len, Dot2(a, a))
  /\ LET d == Sub(a, b) IN Root2(e.dist, Dot2(d, d)) /\ I1(e.dsq, Dot2(d, d))
  /\ a # <<0, 0>> => UnitOf(e.nrm, a)
  /\ LET v == e.v IN
     e.t2 = <<Scale(K, <<v[1], v[2]>>), Scale(K, <<v[1], v[3]>>), Scale(K, <<v[2], v[3]>>),
              Scale(K, <<v[3], v[2]>>), Scale(K, <<v[2], v[1]>>), Scale(K, <<v[3], v[1]>>)>>
  /\ e.t3 = <<Scale(K, <<a[1], a[2], 0>>), Scale(K, <<a[1], 0, a[2]>>), Scale(K, <<0, a[1], a[2]>>),
              Scale(K, <<0, a[2], a[1]>>), Scale(K, <<a[2], a[1], 0>>), Scale(K, <<a[2], 0, a[1]>>)>>

Col(m, j) == <<m[1][j], m[2][j], m[3][j]>>
Tr(m) == <<Col(m, 1), Col(m, 2), Col(m, 3)>>
MM(m, n) == [i \in 1..3 |-> [j \in 1..3 |-> Dot3(m[i], Col(n, j))]]
MV(m, v) == [i \in 1..3 |-> Dot3(m[i], v)]
MAdd(m, n) == [i \in 1..3 |-> Add(m[i], n[i])]
MSub(m, n) == [i \in 1..3 |-> Sub(m[i], n[i])]
MScale(k, m) == [i \in 1..3 |-> Scale(k, m[i])]
Det(m) == Dot3(m[1], Cross3(m[2], m[3]))
Adj(m) == Tr(<<Cross3(m[2], m[3]), Cross3(m[3], m[1]), Cross3(m[1], m[2])>>)
Diag(v) == <<<<v[1], 0, 0>>, <<0, v[2], 0>>, <<0, 0, v[3]>>>>
Id == Diag(<<1, 1, 1>>)
Zero == Diag(<<0, 0, 0>>)
\* r is the inverse of m, or zero if there is none
Inverse(r, m) == LET d == Det(m) IN
  IF d = 0 THEN r = Zero ELSE RM(r, MScale(Sgn(d), Adj(m)), Abs(d))
Flat(m) == m[1] \o m[2] \o m[3]
M3(e) == LET m == e.ma  n == e.mb  v == e.v  k == e.k IN
  /\ IM(e.add, MAdd(m, n)) /\ IM(e.sub, MSub(m, n)) /\ IM(e.mul, MM(m, n))
  /\ IV(e.mv, MV(m, v)) /\ IV(e.vm, MV(Tr(m), v))
  /\ IM(e.ms, MScale(k, m)) /\ IM(e.sm, MScale(k, m))
  /\ e.cadd = e.add /\ e.csub = e.sub /\ e.cmul = e.mul
  /\ Cmp(e, Flat(m), Flat(n), e.cmp)
  /\ IM(e.cols, Tr(m)) /\ IM(e.tr, Tr(m)) /\ IM(e.adj, Adj(m)) /\ I1(e.det, Det(m))
  /\ \A j \in 1..3 : IV(e.col[j], Col(m, j)) /\ I1(e.cdot[j], Dot3(Col(m, j), v))
  /\ Inverse(e.inv, m)
  /\ LET s == MAdd(m, Tr(m)) IN Det(s) # 0 => Inverse(e.isym, s)
  /\ IM(e.diag, Diag(v)) /\ IV(e.gdiag, <<m[1][1], m[2][2], m[3][3]>>)
  /\ IM(e.scale, MM(m, Diag(v)))
  /\ IM(e.skew, <<<<0, -v[3], v[2]>>, <<v[3], 0, -v[1]>>, <<-v[2], v[1], 0>>>>)
  /\ IV(e.skewv, Cross3(v, m[1]))                        \* skew(v) * u = v x u
  /\ e.consts = <<MScale(K, Id), Zero, MScale(K, [i \in 1..3 |-> <<1, 1, 1>>])>>

QMul(p, q) == <<p[4] * q[1] + p[1] * q[4] + p[2] * q[3] - p[3] * q[2],
                p[4] * q[2] - p[1] * q[3] + p[2] * q[4] + p[3] * q[1],
                p[4] * q[3] + p[1] * q[2] - p[2] * q[1] + p[3] * q[4],
                p[4] * q[4] - p[1] * q[1] - p[2] * q[2] - p[3] * q[3]>>
QConj(q) == <<-q[1], -q[2], -q[3], q[4]>>
QDot(p, q) == p[1] * q[1] + p[2] * q[2] + p[3] * q[3] + p[4] * q[4]
QV(v) == <<v[1], v[2], v[3], 0>>
\* rotation of the vector v by q (times the squared norm of q)
QRot(q, v) == LET r == QMul(QMul(q, QV(v)), QConj(q)) IN <<r[1], r[2], r[3]>>
QMat(q) == Tr(<<QRot(q, <<1, 0, 0>>), QRot(q, <<0, 1, 0>>), QRot(q, <<0, 0, 1>>)>>)
Qt(e) == LET p == e.p  q == e.q  v == e.v  k == e.k IN
  /\ IV(e.add, Add(p, q)) /\ IV(e.sub, Sub(p, q)) /\ e.cadd = e.add /\ e.csub = e.sub
  /\ IV(e.muls, Scale(k, p)) /\ IV(e.smul, Scale(k, p)) /\ RV(e.divs, Scale(Sgn(k), p), Abs(k))
  /\ \A i \in 1..4 : q[i] # 0 => R(e.sdiv[i], k * Sgn(q[i]), Abs(q[i]))
  /\ IV(e.mul, QMul(p, q)) /\ e.cmul = e.mul
  /\ IV(e.qv, QMul(p, QV(v))) /\ IV(e.vq, QMul(QV(v), p))
  /\ e.eq = <<p = q, p # q>>
  /\ I1(e.lsq, QDot(p, p)) /\ Root2(e.len, QDot(p, p)) /\ I1(e.dot, QDot(p, q))
  /\ QDot(p, p) # 0 => UnitOf(e.nrm, p)
  /\ IV(e.conj, QConj(p))
  /\ RV(e.der, QMul(QV(v), p), 2)
  /\ IV(e.at, p)

\* up to sign (q and -q are the same rotation)
PM(r, num, den) == RV(r, num, den) \/ RV(r, Scale(-1, num), den)
\* unit quaternions p/n and q/m
Rotation(e) == LET p == e.p  n == e.n  q == e.q  m == e.m  v == e.v  o == e.o
                   n2 == n * n  m2 == m * m  mp == QMat(p) IN
  /\ QDot(p, p) = n2 /\ QDot(q, q) = m2                   \* (well-formed record)
  /\ RV(e.rot, QRot(p, v), n2) /\ RM(e.mat, mp, n2)
  /\ RM(e.mats, mp, n2)                                   \* also of the quaternion that is not unit
  /\ RV(e.comp, QRot(QMul(p, q), v), n2 * m2) /\ RV(e.seq, QRot(QMul(p, q), v), n2 * m2)
  /\ RM(e.mm, MM(mp, QMat(q)), n2 * m2)
  /\ PM(e.toq, p, n)
  /\ RV(e.ax[1], Col(mp, 1), n2) /\ RV(e.ax[2], Col(mp, 2), n2) /\ RV(e.ax[3], Col(mp, 3), n2)
  /\ e.cax = e.ax
  /\ e.cv = MScale(K, Id)
  /\ RV(e.tw, Add(Scale(n2, o), QRot(p, v)), n2) /\ RV(e.twm, Add(Scale(n2, o), QRot(p, v)), n2)
  /\ RV(e.to, QRot(QConj(p), Sub(v, o)), n2) /\ RV(e.tom, QRot(QConj(p), Sub(v, o)), n2)
  /\ RM(e.eul, mp, n2)                                    \* rotation_matrix_xyz of the Euler angles
  /\ \A i \in {1, 3} : Abs(e.ang[i]) <= 31417
  /\ Abs(e.ang[2]) <= 15709

\* rotations by angles whose cosine and sine are c/h and s/h
Rx(c, s, h) == <<<<h, 0, 0>>, <<0, c, -s>>, <<0, s, c>>>>
Ry(c, s, h) == <<<<c, 0, s>>, <<0, h, 0>>, <<-s, 0, c>>>>
Rz(c, s, h) == <<<<c, -s, 0>>, <<s, c, 0>>, <<0, 0, h>>>>
Angles(e) == LET a == e.a  b == e.b  c == e.c IN          \* triples <<cos, sin, h>>
  /\ RM(e.rx, Rx(a[1], a[2], a[3]), a[3]) /\ RM(e.ry, Ry(a[1], a[2], a[3]), a[3]) /\ RM(e.rz, Rz(a[1], a[2], a[3]), a[3])
  /\ RM(e.xyz, MM(MM(Rx(a[1], a[2], a[3]), Ry(b[1], b[2], b[3])), Rz(c[1], c[2], c[3])), a[3] * b[3] * c[3])
\* half the angle has cosine c/h and sine s/h; the axis is the integer vector u of length m
Half(e) == <<e.u[1] * e.s, e.u[2] * e.s, e.u[3] * e.s, e.c * e.m>>     \* times h * m
AxisAngle(e) == LET r == Half(e)  d == e.h * e.m IN
  /\ RV(e.q, r, d) /\ RV(e.qu, r, d)
  \* angle and axis of the quaternion (the pair reproduces the rotation)
  /\ Near(e.ang, e.a, 60)
  /\ e.s # 0 => RV(e.axis, Scale(Sgn(e.s), e.u), e.m)
\* integrating the angular velocity turns by |w| dt about w, after the rotation p
Integrate(e) == RV(e.r, QMul(Half(e), e.p), e.h * e.m * e.n)
\* the angle between p and r p, and between p and -r p, is that of r
AngleBetween(e) == Near(e.ab, e.a, 60) /\ Near(e.abn, e.a, 60) /\ Near(e.self, 0, 15) /\ Near(e.ba, e.a, 60)
RECURSIVE QPow(_, _)
QPow(r, k) == IF k = 0 THEN <<0, 0, 0, 1>> ELSE QMul(r, QPow(r, k - 1))
Pow(x, k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN x ELSE IF k = 2 THEN x * x ELSE x * x * x
\* interpolation between p and r^n p goes through r^k p
Slerp(e) == LET r == Half(e)  d == e.h * e.m
                at(k) == QMul(QPow(r, k), e.p)
                end == at(e.k)
                dp == QDot(e.p, end) IN
  /\ RV(e.at[1], e.p, e.n)
  /\ PM(e.at[e.k + 1], end, Pow(d, e.k) * e.n)
  /\ (\A i \in 1..e.k : QDot(e.p, at(i)) > 0) => \A i \in 0..e.k : RV(e.at[i + 1], at(i), Pow(d, i) * e.n)
  \* the sign of an end does not matter
  /\ dp # 0 => \A i \in 1..(e.k + 1) : NearV(e.atn[i], e.at[i], 15)
\* the rotation takes v0 to v1 by the shortest way: about an axis orthogonal to both
QPart(q) == <<q[1], q[2], q[3]>>
Arc(e) == LET v0 == e.v0  v1 == e.v1  m == e.m IN
  /\ Near(Sum([i \in 1..4 |-> (e.q[i] * e.q[i]) \div K]), K, 10)
  /\ NearV(e.r, Scale(K, v1), 20 * m) \/ \A i \in 1..3 : Abs(m * e.r[i] - K * v1[i]) <= 20 * m
  /\ Abs(Dot3(QPart(e.q), v0)) <= 20 * m /\ Abs(Dot3(QPart(e.q), v1)) <= 20 * m
  /\ e.q[4] >= -5
\* an orthonormal right-handed frame around the unit vector n/m
Frame(e) == LET nn == e.n  m == e.m  ps == e.p  q == e.q IN
  /\ Abs(Dot3(nn, ps)) <= 8 * m /\ Abs(Dot3(nn, q)) <= 8 * m
  /\ Abs(Dot3(ps, q)) <= 8 * K
  /\ Near(Sum([i \in 1..3 |-> (ps[i] * ps[i]) \div K]), K, 10) /\ Near(Sum([i \in 1..3 |-> (q[i] * q[i]) \div K]), K, 10)
  /\ \A i \in 1..3 : Abs(m * q[i] - Cross3(nn, ps)[i]) <= 8 * m * 2
  /\ Col(e.b, 1) = ps /\ Col(e.b, 3) = q /\ RV(Col(e.b, 2), nn, m)
Scalars(e) ==
  \* the normalised angle lies in [-pi, pi] and differs by whole turns
  /\ Abs(e.norm) <= 31417
  /\ LET k == (e.x - e.norm + 31416) \div 62832 IN Abs(e.x * 10 - e.norm * 10 - k * 628319) <= 200
  /\ Abs(e.rad * 180 - e.deg * 31416) <= 400 + Abs(e.deg) /\ Near(e.back, e.deg * 1000, 20)
  /\ e.clamp = IF e.t < 0 THEN 0 ELSE IF e.t > 4 THEN K ELSE e.t * (K \div 4)
  /\ I1(e.sq, e.t * e.t) /\ e.sign = <<K, -K>>
  /\ Abs(e.nmr - e.deg * 573) <= 20 + Abs(e.deg) /\ Near(e.nmd, e.deg * 1000, 20)
=============================================================================
