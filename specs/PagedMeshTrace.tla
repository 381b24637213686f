---------------------------- MODULE PagedMeshTrace ----------------------------
EXTENDS PagedMesh, TraceBase
Set(s) == {s[k] : k \in 1..Len(s)}
Page(x) == [nv |-> x.nv, tris |-> x.tris, tb |-> [k \in DOMAIN x.tris |-> TriBox(x.tris[k])],
            box |-> Union({TriBox(x.tris[k]) : k \in DOMAIN x.tris})]
\* what is observed after every step
Obs == /\ Set(E.ld) = ld' /\ Len(E.ld) = Cardinality(ld')
       /\ E.nv = CachedIn(pg', ld')
       /\ \A k \in 1..Len(E.th) : E.th[k] = thick'
       /\ E.gt = thick'
       /\ E.col = (E.hascol /\ ld' # {})
NoDup(s) == Cardinality(Set(s)) = Len(s)
Q == <<E.q, E.a, E.b>>
TReset == IsEvent("reset") /\ pg' = <<>> /\ lim' = 0 /\ thick' = 0 /\ ld' = {} /\ lg' = {} /\ lo' = <<>> /\ hi' = <<>> /\ n' = 0
\* The pages hold every triangle of the mesh exactly once, with all that belongs to it.
TMesh == /\ IsEvent("mesh")
         /\ pg' = [p \in 1..Len(E.pages) |-> Page(E.pages[p])]
         /\ \A p \in DOMAIN pg' : /\ Len(E.pages[p].tris) \in 1..E.max
                                  /\ E.pages[p].nv = Cardinality({V(E.pages[p].tris[k], i) : k \in DOMAIN E.pages[p].tris, i \in 1..3})
         /\ UNION {Set(E.pages[p].tris) : p \in DOMAIN pg'} = Set(E.full)
         /\ Sum([p \in DOMAIN pg' |-> Len(E.pages[p].tris)]) = Len(E.full)
         /\ lim' = E.lim /\ thick' = E.thick /\ lg' = {} /\ n' = 0
         /\ ld' = (IF E.all THEN DOMAIN pg' ELSE {})
         /\ lo' = [p \in DOMAIN pg' |-> 0] /\ hi' = [p \in DOMAIN pg' |-> 0]
         /\ Obs
TVisit == IsEvent("visit") /\ NoDup(E.seen) /\ Visit(Q, E.steps, Set(E.seen), E.whole) /\ Obs
TLook == IsEvent("look") /\ NoDup(E.seen) /\ Look(Q, Set(E.seen)) /\ Obs
TAll == /\ IsEvent("all") /\ NoDup(E.seen)
        /\ Set(E.seen) = UNION {{<<p, k>> : k \in DOMAIN pg[p].tris} : p \in ld}
        /\ NoDup(E.edges) /\ {x[1] : x \in Set(E.edges)} = ld
        /\ \A p \in ld : {x[2] : x \in {y \in Set(E.edges) : y[1] = p}} =
                         1..Cardinality(UNION {{{V(pg[p].tris[k], 1), V(pg[p].tris[k], 2)}, {V(pg[p].tris[k], 2), V(pg[p].tris[k], 3)}, {V(pg[p].tris[k], 3), V(pg[p].tris[k], 1)}} : k \in DOMAIN pg[p].tris})
        /\ UNCHANGED pvars /\ Obs
TPoint == IsEvent("point") /\ E.i \in ld /\ PointAt(E.i, E.k, E.bc, E.f, E.r, E.m) /\ UNCHANGED pvars /\ Obs
TArrive == IsEvent("arrive") /\ Arrive(E.i) /\ E.msgs = <<E.i>> /\ Obs
TClear == IsEvent("clear") /\ Clear /\ Obs
TThick == IsEvent("thick") /\ SetThick(E.t) /\ Obs
TLimit == IsEvent("limit") /\ SetLimit(E.lim) /\ Obs
\* loaded pages hold what was saved
TContent == IsEvent("content") /\ E.i \in ld /\ E.tris = pg[E.i].tris /\ UNCHANGED pvars
TraceInit == pg = <<>> /\ lim = 0 /\ thick = 0 /\ ld = {} /\ lg = {} /\ lo = <<>> /\ hi = <<>> /\ n = 0 /\ l = 1
TraceSpec == TraceInit /\ [][TReset \/ TMesh \/ TVisit \/ TLook \/ TAll \/ TPoint \/ TArrive \/ TClear \/ TThick \/ TLimit \/ TContent]_<<pvars, l>>
=============================================================================
