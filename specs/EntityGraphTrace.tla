-------------------------- MODULE EntityGraphTrace --------------------------
EXTENDS EntityGraph, TraceBase
Rng(s) == {s[i] : i \in DOMAIN s}
(* s lists exactly the elements of S, each once *)
Exactly(s, S) == Len(s) = Cardinality(S) /\ Rng(s) = S
(* Everything the graph reports after a step, for every live node and edge.   *)
Observed ==
  LET N == nodes' G == edges' v == E.v IN
  /\ v.nn = Cardinality(DOMAIN N) /\ v.ne = Cardinality(DOMAIN G)
  /\ Len(v.nodes) = Cardinality(DOMAIN N) /\ {v.nodes[k].i : k \in DOMAIN v.nodes} = DOMAIN N
  /\ \A k \in DOMAIN v.nodes :
       LET r == v.nodes[k]
           C == Closure(N, G, r.i, DOMAIN N)
       IN /\ r.ent = N[r.i].ent /\ r.con = N[r.i].con
          /\ Exactly(r.nb, Ents(N, Nbrs(G, r.i)))
          /\ Exactly(r.ed, Inc(G, r.i))
          /\ r.nb1 = (IF r.nb = <<>> THEN 0 ELSE 1) /\ r.ed1 = (IF r.ed = <<>> THEN 0 ELSE 1)
          /\ Exactly(r.tn, C) /\ Exactly(r.tm, C)
          /\ r.tn[1] = r.i
          /\ Exactly(r.te, ClosureEdges(N, G, C))
  /\ \A k \in DOMAIN v.pairs :
       LET r == v.pairs[k] S == Between(G, r.a, r.b)
       IN /\ r.has = (S # {}) /\ Exactly(r.ed, S) /\ r.ed1 = (IF S = {} THEN 0 ELSE 1)
  /\ Len(v.edges) = Cardinality(DOMAIN G) /\ {v.edges[k].i : k \in DOMAIN v.edges} = DOMAIN G
  /\ \A k \in DOMAIN v.edges :
       LET r == v.edges[k] g == G[r.i]
       IN r.ent = g.ent /\ r.ab = <<g.a, g.b>> /\ r.ents = <<N[g.a].ent, N[g.b].ent>>
  /\ LET cs == {k \in DOMAIN v.comps : v.comps[k].n # <<>>}       \* (a graph without connecting nodes may report an empty one)
         want == Components(N, G)
     IN /\ Cardinality(cs) = Cardinality(want)
        /\ \A k \in DOMAIN v.comps \ cs : Con(N) = {} /\ v.comps[k].e = <<>>
        /\ {[n |-> Rng(v.comps[k].n), e |-> Rng(v.comps[k].e)] : k \in cs} = want
        /\ \A k \in cs : Exactly(v.comps[k].n, Rng(v.comps[k].n)) /\ Exactly(v.comps[k].e, Rng(v.comps[k].e))
  /\ (Con(N) # {} => v.single = Single(N, G))
  /\ \A k \in DOMAIN v.reach :
       LET r == v.reach[k]
           want == ReachSeq(N, G, r.from, Rng(r.allow), {})
       IN /\ Len(r.comps) = Len(want)
          /\ \A j \in DOMAIN want :
               /\ Exactly(r.comps[j].n, Ents(N, want[j]))
               /\ Exactly(r.comps[j].e, Ents(G, ClosureEdges(N, G, want[j])))
TReset == IsEvent("reset") /\ nodes' = NoNodes /\ edges' = NoEdges
TIN == IsEvent("in") /\ InsertNode(E.i, E.ent, E.con) /\ Observed
TRN == IsEvent("rn") /\ RemoveNode(E.i) /\ Observed
TIE == IsEvent("ie") /\ InsertEdge(E.i, E.ent, E.a, E.b) /\ Observed
TRE == IsEvent("re") /\ RemoveEdge(E.i) /\ Observed
TRA == IsEvent("ra") /\ RemoveAll(E.i) /\ Observed
(* every edge of the node removed from inside a visit: same effect, each visited once *)
TRV == IsEvent("rv") /\ Exactly(E.seen, EdgesOf(E.i)) /\ RemoveAll(E.i) /\ Observed
TSC == IsEvent("sc") /\ SetConnecting(E.i, E.con) /\ Observed
TCL == IsEvent("cl") /\ Clear /\ Observed
TraceSpec == Init /\ l = 1 /\ [][TReset \/ TIN \/ TRN \/ TIE \/ TRE \/ TRA \/ TRV \/ TSC \/ TCL]_<<gvars, l>>
=============================================================================
