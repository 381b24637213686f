----------------------------- MODULE SnapshotTrace -----------------------------
EXTENDS Snapshot, TraceBase
Reset == src' = None /\ dst' = None /\ role' = None /\ sown' = None /\ down' = None /\ mod' = None /\ dmap' = {} /\ dalive' = {} /\ snap' = {}
Range_(s) == {s[i] : i \in DOMAIN s}
\* the snapshot as it reads after the wire
Seen(r) == {<<r.snap[i][1], r.snap[i][2], r.snap[i][3]>> : i \in DOMAIN r.snap}
TReset == IsEvent("reset") /\ Reset
TCre == IsEvent("create") /\ Create(E.o, E.r)
TAdd == IsEvent("add") /\ Add(E.o, E.k, E.v)
TCha == IsEvent("change") /\ Change(E.o, E.k, E.v, E.loud)
TDro == IsEvent("drop") /\ Drop(E.o, E.k)
TOwn == IsEvent("own") /\ OwnSrc(E.o, E.c)
TOwd == IsEvent("owndst") /\ OwnDst(E.o, E.c)
TKno == IsEvent("know") /\ Know(E.o)
TAdd2 == IsEvent("adddst") /\ AddDst(E.o, E.k, E.v)
TLos == IsEvent("lose") /\ Lose(E.o)
TPas == IsEvent("pass") /\ Pass(E.ms, E.server)
\* nothing is told twice, and the snapshot's list of entities is those told of
Told(S) == S = Seen(E) /\ Range_(E.ents) = {x[2] : x \in S} /\ Len(E.ents) = Cardinality({x[2] : x \in S})
Once == Len(E.snap) = Cardinality(Seen(E))
TAll == IsEvent("all") /\ Told(All(Range_(E.es))) /\ Once /\ Take(Seen(E))
TSha == IsEvent("shared") /\ Told(Shared(Range_(E.es))) /\ Once /\ Take(Seen(E))
TPic == IsEvent("picked") /\ Told(Picked(E.o, Range_(E.ks))) /\ Once /\ Take(Seen(E))
TToC == IsEvent("toclient") /\ Told(ToClient(Range_(E.es), E.c, E.full)) /\ Once /\ Take(Seen(E))
TToS == /\ IsEvent("toserver") /\ LET m == IF E.full THEN Fresh(mod, Sent(E.c, Range_(E.es)) \cap Dynamic) ELSE mod IN Told(ToServer(E.c, Range_(E.es), E.full, m))
        /\ TakeClient(E.c, Range_(E.es), E.full)
\* the whole destination, as <<name, <<kind, value>>...>> of those mapped and alive
Shown(D, m) == /\ Range_(E.map) = m /\ {x[1] : x \in Range_(E.comps)} = m \cap dalive
               /\ \A x \in Range_(E.comps) : /\ {c[1] : c \in Range_(x[2])} = DOMAIN D[x[1]] /\ Len(x[2]) = Cardinality(DOMAIN D[x[1]])
                                             /\ \A c \in Range_(x[2]) : D[x[1]][c[1]] = c[2]
Gone == Names \cap (dmap \ dalive)
TImp == IsEvent("import") /\ Shown(Imported(snap), dmap) /\ Give(Imported(snap), {})
TImf == IsEvent("importfrom") /\ Shown(ImportedFrom(snap, E.c, E.check), dmap \ Gone) /\ Give(ImportedFrom(snap, E.c, E.check), Gone)
TSna == IsEvent("snap") /\ Shown(Snapped(snap), dmap) /\ Give(Snapped(snap), {})
TIml == IsEvent("importlocal") /\ Names \subseteq There /\ Shown(Imported(snap), dmap) /\ Give(Imported(snap), {})
TSnl == IsEvent("snaplocal") /\ Names \subseteq There /\ Shown(Snapped(snap), dmap) /\ Give(Snapped(snap), {})
TSnf == IsEvent("snapfrom") /\ Names \subseteq dmap /\ Shown(SnappedFrom(snap, E.c, E.check), dmap) /\ Give(SnappedFrom(snap, E.c, E.check), {})
TraceSpec == l = 1 /\ SInit /\ [][TReset \/ TCre \/ TAdd \/ TCha \/ TDro \/ TOwn \/ TOwd \/ TKno \/ TAdd2 \/ TLos \/ TPas \/ TAll \/ TSha \/ TPic \/ TToC \/ TToS
                                   \/ TImp \/ TImf \/ TSna \/ TIml \/ TSnl \/ TSnf]_<<svars, l>>
=============================================================================
