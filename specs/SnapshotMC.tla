------------------------------ MODULE SnapshotMC ------------------------------
(* Every graph over three bodies, an edge list and a child, every ownership and *)
(* set of changes: who sends what and who is allowed to set what.               *)
EXTENDS Snapshot
N == 1..3
Edge(i) == <<"edge", IF i = 4 THEN 1 ELSE 2, IF i = 4 THEN 2 ELSE 3>>
Kinds == {"P", "i", "h"}
FullState == [k \in Kinds |-> <<7>>]
Graph(es) == [e \in N \cup es \cup {6} |-> CASE e \in N -> <<"node", e = 1>> [] e = 6 -> <<"child", 1>> [] OTHER -> Edge(e)]
Init == \E es \in SUBSET {4, 5} : \E own \in [N -> 0..2] : \E ch \in [N \cup {6} -> SUBSET {"P", "i"}] :
        /\ role = Graph(es) /\ src = [e \in DOMAIN role |-> FullState] /\ dst = [e \in DOMAIN role |-> FullState]
        \* a child belongs to whom its parent belongs to
        /\ sown = [e \in {x \in N : own[x] # 0} \cup (IF own[1] # 0 THEN {6} ELSE {}) |-> IF e = 6 THEN own[1] ELSE own[e]]
        /\ down = sown /\ dmap = DOMAIN role /\ dalive = DOMAIN role /\ snap = {}
        /\ mod = [e \in DOMAIN role |-> IF e \in DOMAIN ch THEN [k \in ch[e] |-> 400] ELSE None]
Spec == Init /\ [][UNCHANGED svars]_svars
Mine(c) == {e \in DOMAIN sown : sown[e] = c}
\* what the server tells a client is never what it lets the client decide
NoTugOfWar == \A c \in 1..2 : \A x \in ToClient(Here \ {6}, c, TRUE) : ~Accepted(x, c)
\* what one client decides no other does
OneMaster == \A x \in All(Here) : Cardinality({c \in 1..2 : Accepted(x, c)}) <= 1
\* a client sends all that the server would let it decide, of what changed, and of an island of its own nothing is refused
NothingHeldBack == \A c \in 1..2 : \A x \in UNION {Changed(e, mod) : e \in N} : Accepted(x, c) /\ x[1] # "i" => x \in ToServer(c, Mine(c), TRUE, mod)
NoneRefused == \A c \in 1..2 : (\A e \in DOMAIN sown : sown[e] = c) => \A x \in ToServer(c, Mine(c), TRUE, mod) : x[1] \notin Private => Accepted(x, c)
\* every change reaches each client unless the client itself is in charge
EveryoneTold == \A c \in 1..2 : \A x \in UNION {Changed(e, mod) : e \in N} : x \in ToClient(Here \ {6}, c, TRUE) \/ Sole(x[2], c, Here, sown) \/ (x[1] \in Private /\ Owner(sown, x[2]) = c)
=============================================================================
