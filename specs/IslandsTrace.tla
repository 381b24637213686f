---------------------------- MODULE IslandsTrace ----------------------------
EXTENDS Islands, TraceBase
Rng(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == Cardinality(Rng(s)) = Len(s)
Upd ==
  LET I == E.isl
      comps == Components
      mem == [C \in comps |-> Members(C)]
  IN /\ Len(I) = Cardinality(comps)
     /\ \A k \in DOMAIN I : NoDup(I[k].n) /\ NoDup(I[k].e)
     /\ \A C \in comps : \E k \in DOMAIN I : Rng(I[k].n) = mem[C] /\ Rng(I[k].e) = EdgesOf(C)
     /\ {E.bod[k].b : k \in DOMAIN E.bod} = DOMAIN kind
     /\ \A k \in DOMAIN E.bod : LET b == E.bod[k] IN
          NoDup(b.r) /\ Rng(b.r) = {I[j].i : j \in {j \in DOMAIN I : b.b \in Rng(I[j].n)}}
     /\ {E.edg[k].c : k \in DOMAIN E.edg} = DOMAIN edges
     /\ \A k \in DOMAIN E.edg : LET c == E.edg[k] IN \E j \in DOMAIN I : I[j].i = c.r /\ c.c \in Rng(I[j].e)
Skip(e) == IsEvent(e) /\ UNCHANGED ivars
TReset == IsEvent("reset") /\ kind' = <<>> /\ edges' = <<>>
TNew == IsEvent("new") /\ New(E.a, E.k)
TDel == IsEvent("del") /\ Del(E.a)
TLink == IsEvent("link") /\ Link(E.c, E.a, E.b, E.ct)
TUnl == IsEvent("unl") /\ Unlink(E.c)
TKind == IsEvent("kind") /\ Kind(E.a, E.k)
TUpd == IsEvent("upd") /\ Upd /\ UNCHANGED ivars
TraceSpec == IInit /\ l = 1 /\ [][TReset \/ TNew \/ TDel \/ TLink \/ TUnl \/ TKind \/ TUpd \/ Skip("vel") \/ Skip("ns") \/ Skip("wake") \/ Skip("put")]_<<ivars, l>>
=============================================================================
