---------------------------- MODULE EntityGraph ----------------------------
(* The entity graph (C08): an undirected multigraph with loops. Nodes and     *)
(* edges are known by indices chosen by the code and carry an entity. A node  *)
(* may be non-connecting: paths end there.                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES nodes,      \* index -> [ent, con]
          edges       \* index -> [ent, a, b]
gvars == <<nodes, edges>>
NoNodes == [i \in {} |-> [ent |-> 0, con |-> TRUE]]
NoEdges == [i \in {} |-> [ent |-> 0, a |-> 0, b |-> 0]]
Init == nodes = NoNodes /\ edges = NoEdges
Restrict(f, S) == [x \in S |-> f[x]]

EdgesOf(n) == {e \in DOMAIN edges : edges[e].a = n \/ edges[e].b = n}
InsertNode(i, ent, con) == /\ i \notin DOMAIN nodes
                           /\ nodes' = (i :> [ent |-> ent, con |-> con]) @@ nodes
                           /\ UNCHANGED edges
RemoveNode(i) == /\ i \in DOMAIN nodes /\ EdgesOf(i) = {}
                 /\ nodes' = Restrict(nodes, DOMAIN nodes \ {i}) /\ UNCHANGED edges
InsertEdge(i, ent, a, b) == /\ i \notin DOMAIN edges /\ {a, b} \subseteq DOMAIN nodes
                            /\ edges' = (i :> [ent |-> ent, a |-> a, b |-> b]) @@ edges
                            /\ UNCHANGED nodes
RemoveEdge(i) == /\ i \in DOMAIN edges
                 /\ edges' = Restrict(edges, DOMAIN edges \ {i}) /\ UNCHANGED nodes
RemoveAll(n) == /\ n \in DOMAIN nodes
                /\ edges' = Restrict(edges, DOMAIN edges \ EdgesOf(n)) /\ UNCHANGED nodes
SetConnecting(n, c) == n \in DOMAIN nodes /\ nodes' = [nodes EXCEPT ![n].con = c] /\ UNCHANGED edges
Clear == nodes' = NoNodes /\ edges' = NoEdges

------------------------------------------------------------------------------
(* What can be asked, for a graph (N, G) *)
Between(G, a, b) == {e \in DOMAIN G : <<G[e].a, G[e].b>> \in {<<a, b>>, <<b, a>>}}
Inc(G, n) == {e \in DOMAIN G : G[e].a = n \/ G[e].b = n}
Other(G, e, n) == IF G[e].a = n THEN G[e].b ELSE G[e].a
Nbrs(G, n) == {Other(G, e, n) : e \in Inc(G, n)}
(* Nodes reached from S when only nodes of Allowed may be entered and paths   *)
(* go on only through connecting nodes.                                      *)
RECURSIVE Reach(_, _, _, _)
Reach(N, G, S, Allowed) ==
  LET T == S \cup (UNION {Nbrs(G, n) : n \in {m \in S : N[m].con}} \cap Allowed)
  IN IF T = S THEN S ELSE Reach(N, G, T, Allowed)
Closure(N, G, n, Allowed) == Reach(N, G, {n}, Allowed)
ClosureEdges(N, G, S) == UNION {Inc(G, n) : n \in {m \in S : N[m].con}}
Con(N) == {n \in DOMAIN N : N[n].con}
Ents(F, S) == {F[x].ent : x \in S}
Components(N, G) == {[n |-> Ents(N, C), e |-> Ents(G, ClosureEdges(N, G, C))] :
                       C \in {Closure(N, G, n, DOMAIN N) : n \in Con(N)}}
Single(N, G) == Cardinality({Closure(N, G, n, DOMAIN N) : n \in Con(N)}) <= 1

(* reach(): components in the order of the starting nodes, each start that is *)
(* allowed and was not reached before gives one.                              *)
RECURSIVE ReachSeq(_, _, _, _, _)
ReachSeq(N, G, starts, Allowed, seen) ==
  IF starts = <<>> THEN <<>>
  ELSE LET s == Head(starts) IN
       IF s \in seen \/ s \notin Allowed THEN ReachSeq(N, G, Tail(starts), Allowed, seen)
       ELSE LET C == Closure(N, G, s, Allowed)
            IN <<C>> \o ReachSeq(N, G, Tail(starts), Allowed, seen \cup {n \in C : N[n].con})
------------------------------------------------------------------------------
(* Bounded exploration of the specification itself *)
CONSTANTS MaxIdx
Next == \/ \E i \in 0..MaxIdx, c \in BOOLEAN : InsertNode(i, i + 10, c) \/ SetConnecting(i, c)
        \/ \E i \in 0..MaxIdx : RemoveNode(i) \/ RemoveEdge(i) \/ RemoveAll(i)
        \/ \E i, a, b \in 0..MaxIdx : InsertEdge(i, i + 20, a, b)
        \/ Clear
Spec == Init /\ [][Next]_gvars
NoDangling == \A e \in DOMAIN edges : {edges[e].a, edges[e].b} \subseteq DOMAIN nodes
(* Connecting nodes are partitioned; an edge with a connecting end is in exactly one component. *)
Partition == /\ \A n \in Con(nodes) : Cardinality({C \in Components(nodes, edges) : nodes[n].ent \in C.n}) = 1
             /\ \A e \in DOMAIN edges :
                  Cardinality({C \in Components(nodes, edges) : edges[e].ent \in C.e})
                    = IF nodes[edges[e].a].con \/ nodes[edges[e].b].con THEN 1 ELSE 0
SingleMeansOne == Single(nodes, edges) <=> Cardinality(Components(nodes, edges)) <= 1
=============================================================================
