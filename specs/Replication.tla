------------------------------ MODULE Replication ------------------------------
(* One registry mirrored into another (C34).  Operations recorded at the source *)
(* are carried in batches and executed at the destination, where entities have  *)
(* other names: a map relates both.  A component's value is a sequence of       *)
(* integers; where it holds entities they are named by their source name, 0     *)
(* being null.  Kinds: v plain, t no data, l one entity, s list of entities, a  *)
(* array of entities, n entity in a nested member, q list of members that hold  *)
(* an entity, d dictionary of entities, p dictionary of such members.           *)
EXTENDS References
VARIABLES src,      \* source: name -> (kind -> value), for existing entities
          obs,      \* observed entities
          active,   \* whether changes are recorded
          q,        \* recorded operations, not yet sent
          dmap,     \* names known to the destination
          dalive,   \* of all names ever mapped, those whose destination entity exists
          dst       \* destination: name -> (kind -> value)
rvars == <<src, obs, active, q, dmap, dalive, dst>>
RInit == src = None /\ obs = {} /\ active = TRUE /\ q = <<>> /\ dmap = {} /\ dalive = {} /\ dst = None
\* ---- source
Record(ops) == q' = IF active THEN q \o ops ELSE q
RecordOn(e, ops) == q' = IF active /\ e \in obs THEN q \o ops ELSE q
Create(e) == e \notin DOMAIN src /\ src' = Put(src, e, None) /\ UNCHANGED <<obs, active, q, dmap, dalive, dst>>
Emplaces(e, ks) == [i \in DOMAIN ks |-> <<"emplace", e, ks[i], src[e][ks[i]]>>]
\* in the order in which the component types were registered
Order == <<"v", "t", "l", "s", "a", "n", "q", "d", "p">>
Observe(e) == /\ e \in DOMAIN src \ obs /\ obs' = obs \cup {e}
              /\ Record(<<<<"create", e>>>> \o Emplaces(e, SelectSeq(Order, LAMBDA k : k \in DOMAIN src[e])))
              /\ UNCHANGED <<src, active, dmap, dalive, dst>>
Unobserve(e) == /\ e \in obs /\ obs' = obs \ {e} /\ Record(<<<<"destroy", e>>>>) /\ UNCHANGED <<src, active, dmap, dalive, dst>>
Destroy(e) == /\ e \in DOMAIN src \ obs /\ src' = Del(src, e) /\ UNCHANGED <<obs, active, q, dmap, dalive, dst>>
Emplace(e, k, v) == /\ e \in DOMAIN src /\ k \notin DOMAIN src[e] /\ src' = Put(src, e, Put(src[e], k, v))
                    /\ RecordOn(e, <<<<"emplace", e, k, v>>>>) /\ UNCHANGED <<obs, active, dmap, dalive, dst>>
Replace(e, k, v) == /\ e \in DOMAIN src /\ k \in DOMAIN src[e] /\ src' = Put(src, e, Put(src[e], k, v))
                    /\ RecordOn(e, <<<<"replace", e, k, v>>>>) /\ UNCHANGED <<obs, active, dmap, dalive, dst>>
Remove(e, k) == /\ e \in DOMAIN src /\ k \in DOMAIN src[e] /\ src' = Put(src, e, Del(src[e], k))
                /\ RecordOn(e, <<<<"remove", e, k>>>>) /\ UNCHANGED <<obs, active, dmap, dalive, dst>>
SetActive(b) == active' = b /\ UNCHANGED <<src, obs, q, dmap, dalive, dst>>
\* an entity that exists in both is made known by name
AddMapping(e) == /\ e \in DOMAIN src /\ q' = Append(q, <<"map", e>>) /\ UNCHANGED <<src, obs, active, dmap, dalive, dst>>
\* the destination may lose an entity on its own account
LocalDestroy(e) == /\ e \in dmap \cap dalive /\ dalive' = dalive \ {e} /\ UNCHANGED <<src, obs, active, q, dmap, dst>>
\* ---- destination
Has(e, D) == e \in D.map /\ e \in D.alive
Exec(op, D) ==
    LET e == op[2] IN
    CASE op[1] \in {"create", "map"} -> IF e \in D.map THEN D ELSE [map |-> D.map \cup {e}, alive |-> D.alive \cup {e}, c |-> Put(D.c, e, None)]
      [] op[1] = "destroy" -> IF e \in D.map THEN [D EXCEPT !.map = @ \ {e}, !.alive = @ \ {e}] ELSE D
      [] op[1] = "emplace" -> IF Has(e, D) /\ op[3] \notin DOMAIN D.c[e] THEN [D EXCEPT !.c = Put(@, e, Put(@[e], op[3], Translate(op[3], op[4], D.map \cap D.alive)))] ELSE D
      [] op[1] = "replace" -> IF Has(e, D) /\ op[3] \in DOMAIN D.c[e] THEN [D EXCEPT !.c = Put(@, e, Put(@[e], op[3], Translate(op[3], op[4], D.map \cap D.alive)))] ELSE D
      [] op[1] = "remove" -> IF Has(e, D) THEN [D EXCEPT !.c = Put(@, e, Del(@[e], op[3]))] ELSE D
RECURSIVE ExecAll(_, _)
ExecAll(ops, D) == IF ops = <<>> THEN D ELSE ExecAll(Tail(ops), Exec(Head(ops), D))
Now == [map |-> dmap, alive |-> dalive, c |-> dst]
Flush == LET D == ExecAll(q, Now) IN
         dmap' = D.map /\ dalive' = D.alive /\ dst' = D.c /\ q' = <<>> /\ UNCHANGED <<src, obs, active>>
\* names are translated beforehand, then the batch is executed without a map
Renamed(op) == IF op[1] \in {"emplace", "replace"} THEN <<op[1], op[2], op[3], Translate(op[3], op[4], dmap)>> ELSE op
CanRename == \A i \in DOMAIN q : q[i][1] \in {"emplace", "replace", "remove"} /\ q[i][2] \in dmap
ExecRaw(op, D) ==
    LET e == op[2] IN
    CASE op[1] = "emplace" -> IF e \in D.alive /\ op[3] \notin DOMAIN D.c[e] THEN [D EXCEPT !.c = Put(@, e, Put(@[e], op[3], op[4]))] ELSE D
      [] op[1] = "replace" -> IF e \in D.alive /\ op[3] \in DOMAIN D.c[e] THEN [D EXCEPT !.c = Put(@, e, Put(@[e], op[3], op[4]))] ELSE D
      [] op[1] = "remove" -> IF e \in D.alive THEN [D EXCEPT !.c = Put(@, e, Del(@[e], op[3]))] ELSE D
RECURSIVE ExecRawAll(_, _)
ExecRawAll(ops, D) == IF ops = <<>> THEN D ELSE ExecRawAll(Tail(ops), ExecRaw(Head(ops), D))
FlushRenamed == /\ CanRename
                /\ LET D == ExecRawAll([i \in DOMAIN q |-> Renamed(q[i])], Now) IN dmap' = D.map /\ dalive' = D.alive /\ dst' = D.c
                /\ q' = <<>> /\ UNCHANGED <<src, obs, active>>
=============================================================================
