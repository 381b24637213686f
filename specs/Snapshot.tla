------------------------------- MODULE Snapshot -------------------------------
(* Network snapshots (C35): selected components of selected entities of one     *)
(* registry, carried to another one in which the entities have other names.     *)
(* Entities are nodes, edges between two nodes, or children of a node; clients  *)
(* own some.  Kinds: P O L A transforms and velocities, h action history, i     *)
(* input, l an entity, s a list of entities, t no data.                         *)
EXTENDS References
VARIABLES src, dst,     \* name -> (kind -> value)
          role,         \* name -> <<"node", dynamic>>, <<"edge", a, b>> or <<"child", parent>>
          sown, down,   \* owners: name -> client, where there is one
          mod,          \* source: name -> (kind -> milliseconds for which it still counts as changed)
          dmap, dalive, \* names known at the destination, and of all ever known those whose entity exists
          snap          \* the snapshot at hand: a set of <<kind, name, value>>
svars == <<src, dst, role, sown, down, mod, dmap, dalive, snap>>
SInit == src = None /\ dst = None /\ role = None /\ sown = None /\ down = None /\ mod = None /\ dmap = {} /\ dalive = {} /\ snap = {}
Body == {"P", "O", "L", "A"}
Private == {"i", "h"}
\* ---- the graph of one side
Start(e) == CASE role[e][1] = "node" -> e [] role[e][1] = "edge" -> role[e][2] [] OTHER -> role[e][2]
Edges(live) == {{role[e][2], role[e][3]} : e \in {x \in live : role[x][1] = "edge"}}
RECURSIVE Grow(_, _)
Grow(S, es) == LET T == S \cup UNION {x \in es : x \cap S # {}} IN IF T = S THEN S ELSE Grow(T, es)
Island(e, live) == Grow({Start(e)}, Edges(live))
Owner(own, e) == IF e \in DOMAIN own THEN own[e] ELSE 0
\* the client is the only one in the island
Sole(e, c, live, own) == LET I == Island(e, live) IN (\E n \in I : Owner(own, n) = c) /\ (\A n \in I : Owner(own, n) \in {0, c})
Here == DOMAIN src
Children(e) == {x \in Here : role[x][1] = "child" /\ role[x][2] = e}
\* ---- export
All(es) == UNION {{<<k, e, src[e][k]>> : k \in DOMAIN src[e]} : e \in es}
Shared(es) == {x \in All(es) : x[1] # "h"}          \* action histories are not shared between clients
Picked(e, ks) == {<<k, e, src[e][k]>> : k \in ks \cap DOMAIN src[e]}
Changed(e, m) == {<<k, e, src[e][k]>> : k \in DOMAIN m[e] \cap DOMAIN src[e]}
Public(S, mine) == IF mine THEN {x \in S : x[1] \notin Private} ELSE S
ToClient(interest, c, full) ==
    UNION {LET mine == Owner(sown, e) = c IN
           Public(Changed(e, mod), mine) \cup UNION {Public(Changed(x, mod), mine) : x \in Children(e)} :
           e \in {x \in interest \cap Here : ~(full /\ Sole(x, c, Here, sown))}}
Fresh(m, es) == [e \in DOMAIN m |-> IF e \in es THEN [k \in DOMAIN m[e] \cup Body |-> IF k \in Body THEN 400 ELSE m[e][k]] ELSE m[e]]
Dynamic == {e \in Here : role[e][1] = "node" /\ role[e][2]}
\* nodes whose state the client sends: those of islands it owns something in, except what others own
Sent(c, owned) == LET seeds == {Start(e) : e \in {x \in owned : role[x][1] # "child"}} IN
    {n \in UNION {Island(s, Here) : s \in seeds} : Owner(sown, n) \in {0, c} /\ \E x \in Island(n, Here) : Owner(sown, x) = c}
Histories(owned) == {x \in All(owned) : x[1] = "h" /\ x[3] # <<>>}
ToServer(c, owned, full, m) ==
    (IF full THEN UNION {Changed(e, m) \cup UNION {Changed(x, m) : x \in Children(e)} : e \in Sent(c, owned)}
     ELSE {x \in UNION {Changed(e, m) : e \in owned} : x[1] = "i"})
    \cup Histories(owned)
\* ---- import
There == dmap \cap dalive
RECURSIVE Apply(_, _, _)
Apply(D, S, emplace) ==
    IF S = {} THEN D
    ELSE LET x == CHOOSE y \in S : TRUE IN
         LET k == x[1] e == x[2]
             v == Translate(k, x[3], There) IN
         Apply(IF k \in DOMAIN D[e] \/ emplace THEN Put(D, e, Put(D[e], k, v)) ELSE D, S \ {x}, emplace)
Accepted(x, c) == IF x[1] \in Private THEN Owner(down, x[2]) = c ELSE Sole(x[2], c, There, down)
Imported(S) == Apply(dst, {x \in S : x[2] \in There}, TRUE)
ImportedFrom(S, c, check) == Apply(dst, {x \in S : x[2] \in There /\ (check => Accepted(x, c))}, TRUE)
Snapped(S) == Apply(dst, {x \in S : x[2] \in There /\ x[1] # "t"}, FALSE)
SnappedFrom(S, c, check) == Apply(dst, {x \in S : x[2] \in There /\ x[1] # "t" /\ (check => Accepted(x, c))}, FALSE)
\* ---- actions
Create(e, r) == /\ e \notin DOMAIN role /\ role' = Put(role, e, r) /\ src' = Put(src, e, None) /\ mod' = Put(mod, e, None)
                /\ UNCHANGED <<dst, sown, down, dmap, dalive, snap>>
\* values of new components do not count as changes
Add(e, k, v) == e \in Here /\ k \notin DOMAIN src[e] /\ src' = Put(src, e, Put(src[e], k, v)) /\ UNCHANGED <<dst, role, sown, down, mod, dmap, dalive, snap>>
Change(e, k, v, loud) == /\ e \in Here /\ k \in DOMAIN src[e] /\ src' = Put(src, e, Put(src[e], k, v))
                         /\ mod' = IF loud THEN Put(mod, e, Put(mod[e], k, 400)) ELSE mod
                         /\ UNCHANGED <<dst, role, sown, down, dmap, dalive, snap>>
Drop(e, k) == e \in Here /\ k \in DOMAIN src[e] /\ src' = Put(src, e, Del(src[e], k)) /\ UNCHANGED <<dst, role, sown, down, mod, dmap, dalive, snap>>
OwnSrc(e, c) == sown' = Put(sown, e, c) /\ UNCHANGED <<src, dst, role, down, mod, dmap, dalive, snap>>
OwnDst(e, c) == e \in There /\ down' = Put(down, e, c) /\ UNCHANGED <<src, dst, role, sown, mod, dmap, dalive, snap>>
Know(e) == /\ e \notin dmap /\ dmap' = dmap \cup {e} /\ dalive' = dalive \cup {e} /\ dst' = Put(dst, e, None)
           /\ (role[e][1] = "edge" => role[e][2] \in There /\ role[e][3] \in There) /\ (role[e][1] = "child" => role[e][2] \in There)
           /\ down' = Del(down, e) /\ UNCHANGED <<src, role, sown, mod, snap>>
AddDst(e, k, v) == e \in There /\ dst' = Put(dst, e, Put(dst[e], k, v)) /\ UNCHANGED <<src, role, sown, down, mod, dmap, dalive, snap>>
Lose(e) == e \in There /\ dalive' = dalive \ {e} /\ UNCHANGED <<src, dst, role, sown, down, mod, dmap, snap>>
\* time passes; on the server what moves counts as changed
Older(m, ms) == [e \in DOMAIN m |-> [k \in {x \in DOMAIN m[e] : m[e][x] >= ms} |-> m[e][k] - ms]]
Pass(ms, server) == /\ mod' = (IF server THEN Fresh(Older(mod, ms), Dynamic) ELSE Older(mod, ms))
                    /\ UNCHANGED <<src, dst, role, sown, down, dmap, dalive, snap>>
Take(S) == snap' = S /\ UNCHANGED <<src, dst, role, sown, down, mod, dmap, dalive>>
TakeMod(S, m) == snap' = S /\ mod' = m /\ UNCHANGED <<src, dst, role, sown, down, dmap, dalive>>
TakeClient(c, owned, full) == LET m == IF full THEN Fresh(mod, Sent(c, owned) \cap Dynamic) ELSE mod IN TakeMod(ToServer(c, owned, full, m), m)
Give(D, forget) == dst' = D /\ dmap' = dmap \ forget /\ UNCHANGED <<src, role, sown, down, mod, dalive, snap>>
Names == {x[2] : x \in snap}
=============================================================================
