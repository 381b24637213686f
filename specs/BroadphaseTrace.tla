-------------------------- MODULE BroadphaseTrace --------------------------
EXTENDS Broadphase, TraceBase
Rng(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == Cardinality(Rng(s)) = Len(s)
B(x) == IF x = <<>> THEN <<>> ELSE <<<<x[1], x[2], x[3]>>, <<x[4], x[5], x[6]>>>>
\* everything the code shows after a step: the manifolds with their contact points, who finds them, and that no
\* contact point is left without a manifold
Seen(m) == /\ Len(E.man) = Cardinality(DOMAIN m)
           /\ {{E.man[i].a, E.man[i].b} : i \in DOMAIN E.man} = DOMAIN m
           /\ \A i \in DOMAIN E.man : LET x == E.man[i] IN x.n = m[{x.a, x.b}] /\ x.len = x.n /\ x.ok
           /\ {{q[1], q[2]} : q \in Rng(E.map)} = DOMAIN m /\ Len(E.map) = 2 * Cardinality(DOMAIN m) /\ NoDup(E.map)
           /\ E.pts = LET Sum[S \in SUBSET DOMAIN m] == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE IN m[p] + Sum[S \ {p}]
                      IN Sum[DOMAIN m]
TReset == IsEvent("reset") /\ body' = <<>> /\ ex' = {} /\ man' = <<>> /\ tree' = <<>>
TNew == IsEvent("new") /\ New(E.a, E.k, B(E.box), Rng(E.g), Rng(E.m))
TDel == IsEvent("del") /\ Del(E.a) /\ Seen(man')
TMove == IsEvent("move") /\ Move(E.a, B(E.box))
TShape == IsEvent("shape") /\ Shape(E.a, B(E.box))
TFlag == IsEvent("flag") /\ Flag(E.a, E.f, E.on)
TLayer == IsEvent("layer") /\ Layer(E.a, Rng(E.g), Rng(E.m))
TExc == IsEvent("exc") /\ Exclude(E.a, E.b)
TAllow == IsEvent("allow") /\ Allow(E.a, E.b)
TKind == IsEvent("kind") /\ Kind(E.a, E.k) /\ Seen(man')
TPoint == IsEvent("pt") /\ Point({E.a, E.b}, E.n) /\ Seen(man')
TUpd == IsEvent("upd") /\ Update /\ Seen(man')
\* box queries: every filed body whose box meets the query, possibly others that are filed, each once
Q(res, K, q) == /\ NoDup(res)
                /\ Rng(res) \subseteq {a \in DOMAIN tree : body[a].k \in K}
                /\ {a \in DOMAIN tree : body[a].k \in K /\ Gap(tree[a], q, 0)} \subseteq Rng(res)
TQuery == IsEvent("query") /\ Q(E.p, {"d"}, B(E.q)) /\ Q(E.n, {"k", "s"}, B(E.q)) /\ UNCHANGED bvars
TraceSpec == BInit /\ l = 1 /\ [][TReset \/ TNew \/ TDel \/ TMove \/ TShape \/ TFlag \/ TLayer \/ TExc \/ TAllow \/ TKind \/ TPoint \/ TUpd \/ TQuery]_<<bvars, l>>
=============================================================================
