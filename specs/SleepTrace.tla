----------------------------- MODULE SleepTrace -----------------------------
EXTENDS Sleep, TraceBase
Rng(s) == {s[i] : i \in DOMAIN s}
Obs == {Rng(E.isl[k].n) \cap Dyn : k \in {k \in DOMAIN E.isl : E.isl[k].sl}}
TReset == IsEvent("reset") /\ kind' = <<>> /\ edges' = <<>> /\ mv' = {} /\ ns' = {} /\ asleep' = {} /\ since' = <<>> /\ quiet' = <<>>
          /\ sig' = <<>> /\ touched' = {} /\ now' = 0
TNew == IsEvent("new") /\ SNew(E.a, E.k, E.ns)
TDel == IsEvent("del") /\ SDel(E.a)
TLink == IsEvent("link") /\ SLink(E.c, E.a, E.b, E.ct)
TUnl == IsEvent("unl") /\ SUnlink(E.c)
TKind == IsEvent("kind") /\ SKind(E.a, E.k)
TVel == IsEvent("vel") /\ Vel(E.a, E.mv)
TNs == IsEvent("ns") /\ NoSleep(E.a, E.on)
TWake == IsEvent("wake") /\ Wake(E.a)
TPut == IsEvent("put") /\ Put(E.a)
TUpd == /\ IsEvent("upd")
        /\ Obs \subseteq Components
        /\ Update(E.t, Obs)
        /\ \A k \in DOMAIN E.bod : LET b == E.bod[k] IN
             /\ b.sl = (b.b \in asleep')
             /\ (b.b \in asleep' \ asleep => b.z)
        /\ \A k \in DOMAIN E.edg : LET c == E.edg[k] IN c.sl = (Ends(c.c) \cap asleep' # {})
TraceSpec == IInit /\ SInit /\ l = 1
             /\ [][TReset \/ TNew \/ TDel \/ TLink \/ TUnl \/ TKind \/ TVel \/ TNs \/ TWake \/ TPut \/ TUpd]_<<ivars, svars, l>>
=============================================================================
