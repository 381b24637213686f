----------------------------- MODULE ClosestTrace -----------------------------
EXTENDS Closest, TraceBase
TPs == IsEvent("ps") /\ PointSegment(E.q0, E.q1, E.p, E.t, E.q, E.d2)
TPl == IsEvent("pl") /\ PointLine(E.q0, E.dir, E.p, E.t, E.q, E.d2, E.dl2)
TLl == IsEvent("ll") /\ LineLine(E.p1, E.q1, E.p2, E.q2, E.ok, E.s, E.t)
TSs == IsEvent("ss") /\ SegSeg(E.p1, E.q1, E.p2, E.q2, E.s, E.t, E.c1, E.c2, E.d2)
TSn == /\ IsEvent("sn") /\ SegSeg(E.p1, E.q1, E.p2, E.q2, E.s, E.t, E.c1, E.c2, E.d2)
       /\ SegSegNum(E.p1, E.q1, E.p2, E.q2, E.n)
       /\ E.n = 2 => /\ SegSeg(E.p1, E.q1, E.p2, E.q2, E.sp, E.tp, E.c1p, E.c2p, E.d2)
                     /\ ~NearV(E.c1, E.c1p, 10)
TDi == IsEvent("di") /\ Disc(E.pos, E.m, E.ax, E.r, E.p, E.q, E.d2)
TBo == IsEvent("bo") /\ BoxOut(E.h, E.p, E.q)
TBi == IsEvent("bi") /\ BoxIn6(E.h, E.p, E.q, E.nrm, E.d)
TPg == IsEvent("pg") /\ Polygon(E.v, E.p, E.out, E.q)
TCl == IsEvent("cl") /\ CircleLine(E.pos, E.m, E.ax, E.r, E.p0, E.p1, E.n, E.s, E.rc, E.rl, E.d2, E.nl)
TCc == /\ IsEvent("cc") /\ CircleCircle(E.a, E.b, E.n, E.rA, E.rB, E.d2, E.nl)
       /\ SameAxis(E.a, E.b) => ParallelCirclesMin(E.a, E.b, E.d2)
TraceSpec == l = 1 /\ [][TPs \/ TPl \/ TLl \/ TSs \/ TSn \/ TDi \/ TBo \/ TBi \/ TPg \/ TCl \/ TCc]_l
=============================================================================
