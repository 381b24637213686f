----------------------------- MODULE DynamicTree -----------------------------
(* Dynamic bounding-volume tree (C12). What a user sees: the live leaves,     *)
(* each with the entity and box it was given and a stored box. Coordinates in *)
(* hundredths.                                                                *)
EXTENDS Geo
VARIABLE leaves                                    \* id -> [ent, box]
None == [i \in {} |-> [ent |-> 0, box |-> <<>>]]
Create(id, ent, given, stored) == /\ id \notin DOMAIN leaves
                                  /\ BoxIn(given, stored)
                                  /\ leaves' = (id :> [ent |-> ent, box |-> stored]) @@ leaves
(* moved: whether the stored box changed. A box still inside is left alone.   *)
Move(id, given, stored, moved) ==
  /\ id \in DOMAIN leaves
  /\ BoxIn(given, stored)
  /\ moved = (stored # leaves[id].box)
  /\ leaves' = [leaves EXCEPT ![id].box = stored]
Destroy(id) == id \in DOMAIN leaves /\ leaves' = [i \in DOMAIN leaves \ {id} |-> leaves[i]]
Clear == leaves' = None
Grow(b, k) == <<[i \in 1..3 |-> b[1][i] - k], [i \in 1..3 |-> b[2][i] + k]>>
(* v: the <<id, entity>> visited. Within one unit of touching either is fine. *)
Answer(v, Hit(_)) ==
  /\ \A i, j \in DOMAIN v : v[i] = v[j] => i = j
  /\ \A k \in DOMAIN v : v[k][1] \in DOMAIN leaves /\ v[k][2] = leaves[v[k][1]].ent
                         /\ Hit(Grow(leaves[v[k][1]].box, 1))
  /\ \A i \in DOMAIN leaves : Hit(Grow(leaves[i].box, -1)) => \E k \in DOMAIN v : v[k][1] = i
=============================================================================
