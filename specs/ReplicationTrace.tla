--------------------------- MODULE ReplicationTrace ---------------------------
EXTENDS Replication, TraceBase
Reset == src' = None /\ obs' = {} /\ active' = TRUE /\ q' = <<>> /\ dmap' = {} /\ dalive' = {} /\ dst' = None
Range_(s) == {s[i] : i \in DOMAIN s}
\* the destination as reported: names mapped, names alive, and <<name, <<kind, value>>...>> for those alive and mapped
Shown(r) == /\ dmap' = Range_(r.map)
            /\ Range_(r.map) \cap dalive' = Range_(r.alive)
            /\ {x[1] : x \in Range_(r.comps)} = Range_(r.alive)
            /\ \A x \in Range_(r.comps) : /\ {c[1] : c \in Range_(x[2])} = DOMAIN dst'[x[1]]
                                          /\ \A c \in Range_(x[2]) : dst'[x[1]][c[1]] = c[2]
                                          /\ Len(x[2]) = Cardinality(DOMAIN dst'[x[1]])
            /\ r.strays = 0
TReset == IsEvent("reset") /\ Reset
TCre == IsEvent("create") /\ Create(E.o)
TObs == IsEvent("observe") /\ Observe(E.o) /\ Len(q') = E.n
TUno == IsEvent("unobserve") /\ Unobserve(E.o) /\ Len(q') = E.n
TDes == IsEvent("destroy") /\ Destroy(E.o)
TEmp == IsEvent("emplace") /\ Emplace(E.o, E.k, E.v) /\ Len(q') = E.n
TRep == IsEvent("replace") /\ Replace(E.o, E.k, E.v) /\ Len(q') = E.n
TRem == IsEvent("remove") /\ Remove(E.o, E.k) /\ Len(q') = E.n
TAct == IsEvent("active") /\ SetActive(E.b)
TMap == IsEvent("map") /\ AddMapping(E.o)
TLoc == IsEvent("local") /\ LocalDestroy(E.o)
TFlu == IsEvent("flush") /\ Flush /\ Shown(E) /\ E.n = Len(q) /\ E.left = 0
TRen == IsEvent("renamed") /\ FlushRenamed /\ Shown(E) /\ E.n = Len(q) /\ E.left = 0
TraceSpec == l = 1 /\ RInit /\ [][TReset \/ TCre \/ TObs \/ TUno \/ TDes \/ TEmp \/ TRep \/ TRem \/ TAct \/ TMap \/ TLoc \/ TFlu \/ TRen]_<<rvars, l>>
=============================================================================
