---------------------------- MODULE IntersectTrace ----------------------------
EXTENDS Intersect, TraceBase
TLc == IsEvent("lc") /\ LineCircle(E.p0, E.p1, E.r, E.n, E.s0, E.s1)
TCc == IsEvent("cc") /\ CircleCircle(E.a, E.ra, E.b, E.rb, E.n, E.x, E.y)
TLb == IsEvent("lb") /\ LineBox(E.p0, E.p1, E.lo, E.hi, E.n, E.s0, E.s1)
TSe == IsEvent("se") /\ Segments(E.p0, E.p1, E.q0, E.q1, E.n, E.s0, E.t0, E.s1, E.t1)
TSb == IsEvent("sb") /\ (E.hit <=> SegBox(E.p, E.q, <<E.lo, E.hi>>))
TBb == IsEvent("bb") /\ (E.hit <=> BoxOverlap(<<E.lo, E.hi>>, <<E.lo2, E.hi2>>))
TRs == IsEvent("rs") /\ RaySphere(E.p0, E.p1, E.c, E.r, E.hit, E.t)
TRc == IsEvent("rc") /\ RayCylinder(E.p0, E.p1, E.c, E.n, E.r, E.kind, E.dist, E.nrm, E.fi, E.fo)
TSt == IsEvent("st") /\ SegTriangle(E.p0, E.p1, E.v, E.hit, E.t)
TPt == IsEvent("pt") /\ E.in2 = E.in /\ (E.in <=> InPrism(E.v, Cross3(Sub(E.v[2], E.v[1]), Sub(E.v[3], E.v[1])), E.p))
TPp == IsEvent("pp") /\ (E.in <=> InPrism(E.v, E.n, E.p)) /\ E.in2 = E.in
TPg == IsEvent("pg") /\ (E.in <=> InPolygon(E.v, E.p))
TMf == IsEvent("mf") /\ MinkowskiFace(E.a, E.b, E.c, E.d, E.res)
TraceSpec == l = 1 /\ [][TLc \/ TCc \/ TLb \/ TSe \/ TSb \/ TBb \/ TRs \/ TRc \/ TSt \/ TPt \/ TPp \/ TPg \/ TMf]_l
=============================================================================
