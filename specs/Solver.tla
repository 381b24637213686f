-------------------------------- MODULE Solver --------------------------------
(* Sequential impulses.  Three bodies; row 1 acts between bodies 1 and 2, row  *)
(* 2 between 2 and 3, a friction pair belongs to row 1, a spin friction row to *)
(* row 2.  Masses are in quarters, Jacobians integer, impulses and velocity    *)
(* changes in 4096ths.  A solve step is specified by what must hold after it   *)
(* (the conditions of the box-constrained problem), not by how it is computed. *)
EXTENDS Integers, Sequences
VARIABLES imp,      \* <<row 1, row 2, <<friction 1, friction 2>>, spin>>
          dv, dw,   \* velocity changes per body
          cfg       \* the problem
U == 4096
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, t) == Abs(a - b) <= t
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
MatVec(m, v) == [i \in 1..3 |-> Dot(m[i], v)]
Bodies(r) == IF r = 1 THEN <<1, 2>> ELSE <<2, 3>>
\* sum of |J| bounds the rounding of a dot product of recorded values
Slack(J) == 2 + Abs(J[1][1]) + Abs(J[1][2]) + Abs(J[1][3]) + Abs(J[2][1]) + Abs(J[2][2]) + Abs(J[2][3])
              + Abs(J[3][1]) + Abs(J[3][2]) + Abs(J[3][3]) + Abs(J[4][1]) + Abs(J[4][2]) + Abs(J[4][3])
RelVel(J, b, v, w) == Dot(J[1], v[b[1]]) + Dot(J[2], w[b[1]]) + Dot(J[3], v[b[2]]) + Dot(J[4], w[b[2]])
\* 4 * J M^-1 J^T
InvEff4(J, b, m4, i4) == Dot(J[1], J[1]) * m4[b[1]] + Dot(MatVec(i4[b[1]], J[2]), J[2])
                       + Dot(J[3], J[3]) * m4[b[2]] + Dot(MatVec(i4[b[2]], J[4]), J[4])
\* 4 * velocity change of body k produced by impulse p through J
Lin4(J, b, k, p, c) == [i \in 1..3 |-> (IF b[1] = k THEN c.m4[k] * J[1][i] * p ELSE 0) + (IF b[2] = k THEN c.m4[k] * J[3][i] * p ELSE 0)]
Ang4(J, b, k, p, c) == [i \in 1..3 |-> (IF b[1] = k THEN MatVec(c.i4[k], J[2])[i] * p ELSE 0) + (IF b[2] = k THEN MatVec(c.i4[k], J[4])[i] * p ELSE 0)]
Zero3 == <<0, 0, 0>>
SpinJ(c) == <<Zero3, c.sJ[1], Zero3, c.sJ[2]>>
\* the change of all velocities is that of the given impulses through their rows, within rounding
Applied(before, after, ps, c, t) ==
    \A k \in 1..3, i \in 1..3 :
        /\ Near(4 * (after.dv[k][i] - before.dv[k][i]),
                Lin4(c.J[1], <<1, 2>>, k, ps[1], c)[i] + Lin4(c.J[2], <<2, 3>>, k, ps[2], c)[i]
                + Lin4(c.fJ[1], <<1, 2>>, k, ps[3], c)[i] + Lin4(c.fJ[2], <<1, 2>>, k, ps[4], c)[i], t)
        /\ Near(4 * (after.dw[k][i] - before.dw[k][i]),
                Ang4(c.J[1], <<1, 2>>, k, ps[1], c)[i] + Ang4(c.J[2], <<2, 3>>, k, ps[2], c)[i]
                + Ang4(c.fJ[1], <<1, 2>>, k, ps[3], c)[i] + Ang4(c.fJ[2], <<1, 2>>, k, ps[4], c)[i]
                + Ang4(SpinJ(c), <<2, 3>>, k, ps[5], c)[i], t)
Tol == 400                                       \* of 4*4096: well below a tenth of a unit
\* preparation: the effective mass inverts J M^-1 J^T, the target removes error and relative velocity
Prepared(c) ==
    \A r \in 1..2 :
        LET b == Bodies(r)
            rel == RelVel(c.J[r], b, c.v, c.w)   \* integer velocities
        IN /\ Near(InvEff4(c.J[r], b, c.m4, c.i4) * c.eff[r], 4 * U, InvEff4(c.J[r], b, c.m4, c.i4) + 8)
           \* error in eighths, erp in eighths, restitution in quarters
           /\ Near(64 * c.rhs[r], -(c.err[r] * c.erp[r] * U + 16 * rel * (4 + c.rest[r]) * U), 64 * 4)
State(E) == [imp |-> E.imp, dv |-> E.dv, dw |-> E.dw]
Now == [imp |-> imp, dv |-> dv, dw |-> dw]
Become(E) == imp' = E.imp /\ dv' = E.dv /\ dw' = E.dw /\ UNCHANGED cfg
Begin(E) == /\ cfg' = E /\ Prepared(E)
            /\ imp' = E.imp /\ dv' = <<Zero3, Zero3, Zero3>> /\ dw' = <<Zero3, Zero3, Zero3>>
Flat(x) == <<x[1], x[2], x[3][1], x[3][2], x[4]>>
WarmStart(E) == /\ E.imp = imp /\ Applied(Now, State(E), Flat(imp), cfg, Tol) /\ Become(E)
Others(E, keep) == \A r \in keep : E.imp[r] = imp[r]
\* a row: within limits, applied symmetrically, satisfied unless held by a limit, and then pushed against it
SolveRow(r, E) ==
    LET d == E.imp[r] - imp[r]
        rel == RelVel(cfg.J[r], Bodies(r), E.dv, E.dw)
        t == Slack(cfg.J[r]) + 16
    IN /\ Others(E, 1..4 \ {r})
       /\ E.imp[r] >= cfg.lo[r] /\ E.imp[r] <= cfg.hi[r]
       /\ Near(E.delta, d, 2)
       /\ Applied(Now, State(E), IF r = 1 THEN <<d, 0, 0, 0, 0>> ELSE <<0, d, 0, 0, 0>>, cfg, Tol)
       /\ (E.imp[r] > cfg.lo[r] => rel <= cfg.rhs[r] + t)
       /\ (E.imp[r] < cfg.hi[r] => rel >= cfg.rhs[r] - t)
       /\ Become(E)
\* limits may be changed between solves; nothing else does
SetLimits(E) == /\ cfg' = [cfg EXCEPT !.lo = E.lo, !.hi = E.hi] /\ E.imp = imp /\ E.dv = dv /\ E.dw = dw /\ UNCHANGED <<imp, dv, dw>>
\* friction: the pair stays in the circle given by the normal impulse; inside it reaches its target
Sq(a, b) == (a \div 64) * (a \div 64) + (b \div 64) * (b \div 64)
Friction(E) ==
    LET p == E.imp[3]
        q == imp[3]
        max8 == cfg.mu * imp[1]                  \* coefficient in eighths
        lim == max8 \div 8
        inside == Sq(p[1], p[2]) < Sq(lim - 256, 0) /\ lim > 512
        d == <<p[1] - q[1], p[2] - q[2]>>
        \* what each row asks for: eff * (rhs - J dv), eff and rhs in 4096ths
        ask(i) == LET g == cfg.frhs[i] - RelVel(cfg.fJ[i], <<1, 2>>, dv, dw) IN <<InvEff4(cfg.fJ[i], <<1, 2>>, cfg.m4, cfg.i4), g>>
    IN /\ Others(E, {1, 2, 4})
       /\ Sq(Abs(p[1]), Abs(p[2])) <= Sq(lim + 80, 0)
       /\ (lim <= 0 => Abs(p[1]) <= 4 /\ Abs(p[2]) <= 4)
       /\ Applied(Now, State(E), <<0, 0, d[1], d[2], 0>>, cfg, Tol)
       /\ (inside => \A i \in 1..2 : Near(ask(i)[1] * d[i], 4 * ask(i)[2], 4 * Slack(cfg.fJ[i]) + 2 * ask(i)[1] + 64))
       \* at the edge of the circle: along the direction asked for
       /\ (~inside /\ lim > 512 =>
             LET wish(i) == (ask(i)[1] * (q[i] \div 64) + (4 * ask(i)[2]) \div 64)      \* times its 4 J M^-1 J^T
                 a == wish(1) * ask(2)[1]
                 b == wish(2) * ask(1)[1]
             IN \* compared only by quadrant and slope ordering, which no rounding can upset
                /\ (Abs(a) * 4 > Abs(b) => (a > 0) = (p[1] > 0))
                /\ (Abs(b) * 4 > Abs(a) => (b > 0) = (p[2] > 0))
                /\ (Abs(a) > 2 * Abs(b) + 64 => Abs(p[1]) > Abs(p[2]))
                /\ (Abs(b) > 2 * Abs(a) + 64 => Abs(p[2]) > Abs(p[1])))
       /\ Become(E)
Spin(E) ==
    LET p == E.imp[4]
        d == p - imp[4]
        lim == (cfg.smu * imp[2]) \div 8
        J == SpinJ(cfg)
        rel == RelVel(J, <<2, 3>>, E.dv, E.dw)
        t == Slack(J) + 16
    IN /\ Others(E, {1, 2, 3})
       /\ Abs(p) <= lim + 2
       /\ Applied(Now, State(E), <<0, 0, 0, 0, d>>, cfg, Tol)
       /\ (p > -lim + 2 => rel <= cfg.srhs + t)
       /\ (p < lim - 2 => rel >= cfg.srhs - t)
       /\ Become(E)
\* at any time the velocity changes are those of the accumulated impulses
Accumulated == cfg.warm => Applied([dv |-> <<Zero3, Zero3, Zero3>>, dw |-> <<Zero3, Zero3, Zero3>>], Now, Flat(imp), cfg, 3 * Tol)
=============================================================================
