------------------------------ MODULE StaticTree ------------------------------
(* Static bounding-volume tree (C11). A tree over boxes is a binary tree of   *)
(* nodes with bounds; every leaf holds a set of box indices.                  *)
EXTENDS Geo
(* boxes: sequence of <<lo, hi>>; leaves: sequence of index sequences (0-based)*)
Partition(boxes, leaves) ==
  /\ \A i \in 0..Len(boxes) - 1 : Cardinality({k \in DOMAIN leaves : \E j \in DOMAIN leaves[k] : leaves[k][j] = i}) = 1
  /\ Sum([k \in DOMAIN leaves |-> Len(leaves[k])]) = Len(boxes)
  /\ \A k \in DOMAIN leaves : Len(leaves[k]) > 0
Contents(boxes, leaf) == {boxes[leaf[j] + 1] : j \in DOMAIN leaf}
(* nodes: sequence of <<lo, hi, child1, child2, leaf>>, children as 1-based   *)
(* positions in the dump (0 if none), leaf: 1-based leaf number (0 if inner). *)
Children(n) == {n[3], n[4]} \ {0}
WellFormed(boxes, leaves, nodes) ==
  /\ \A i \in DOMAIN nodes :
       LET n == nodes[i] IN
       IF n[5] > 0
       THEN /\ Children(n) = {} /\ n[5] <= Len(leaves)
            /\ \A b \in Contents(boxes, leaves[n[5]]) : BoxIn(b, <<n[1], n[2]>>)
       ELSE /\ Cardinality(Children(n)) = 2
            /\ \A c \in Children(n) : c > i /\ c <= Len(nodes) /\ BoxIn(<<nodes[c][1], nodes[c][2]>>, <<n[1], n[2]>>)
  /\ \A i \in 2..Len(nodes) : Cardinality({j \in DOMAIN nodes : i \in Children(nodes[j])}) = 1
  /\ \A k \in DOMAIN leaves : Cardinality({i \in DOMAIN nodes : nodes[i][5] = k}) = 1
NoDup(v) == Cardinality(Range(v)) = Len(v)
(* v: leaves visited. Box contents that overlap must be visited; bounds that  *)
(* are disjoint must not be. Touching counts as overlap.                      *)
QueryOk(boxes, leaves, nodes, v, Hit(_)) ==
  /\ NoDup(v)
  /\ \A k \in DOMAIN leaves : (\E b \in Contents(boxes, leaves[k]) : Hit(b)) => k \in Range(v)
  /\ \A k \in Range(v) : \E i \in DOMAIN nodes : nodes[i][5] = k /\ Hit(<<nodes[i][1], nodes[i][2]>>)
=============================================================================
