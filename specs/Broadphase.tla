----------------------------- MODULE Broadphase -----------------------------
(* Which pairs of bodies have a contact manifold. A body has a kind, maybe a box (thousandths, <<lo, hi>>),   *)
(* may be asleep or disabled, and has collision layers; X is the set of excluded pairs. A manifold appears     *)
(* when the boxes of two bodies that may collide come within Create of each other, stays until they are more   *)
(* than Break apart, and is gone with either body or box. `tree' holds the box under which a body is filed.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Create == 20
Break == 26
VARIABLES body, ex, man, tree
bvars == <<body, ex, man, tree>>
Pairs(S) == {p \in SUBSET S : Cardinality(p) = 2}
Gap(x, y, d) == \A i \in 1..3 : x[1][i] - y[2][i] <= d /\ y[1][i] - x[2][i] <= d
Near(a, b, d) == body[a].box # <<>> /\ body[b].box # <<>> /\ Gap(body[a].box, body[b].box, d)
Proc(a) == body[a].k = "d"
Active(a) == Proc(a) /\ ~body[a].sl /\ ~body[a].dis /\ body[a].box # <<>>
Layers(a, b) == body[a].g \cap body[b].m # {} /\ body[b].g \cap body[a].m # {}
May(a, b) == Layers(a, b) /\ {a, b} \notin ex /\ ~body[a].dis /\ ~body[b].dis
Asleep(p) == \E a \in p : Proc(a) /\ body[a].sl
Restrict(f, S) == [x \in S |-> f[x]]
BInit == body = <<>> /\ ex = {} /\ man = <<>> /\ tree = <<>>
Fresh(k, box, g, m) == [k |-> k, box |-> box, sl |-> FALSE, dis |-> FALSE, g |-> g, m |-> m]
New(a, k, box, g, m) ==
    a \notin DOMAIN body /\ body' = (a :> Fresh(k, box, g, m)) @@ body /\ UNCHANGED <<ex, man, tree>>
DropPairs(S, a) == {p \in S : a \notin p}
Del(a) == /\ a \in DOMAIN body
          /\ body' = Restrict(body, DOMAIN body \ {a})
          /\ ex' = DropPairs(ex, a)
          /\ man' = Restrict(man, DropPairs(DOMAIN man, a))
          /\ tree' = Restrict(tree, DOMAIN tree \ {a})
Set(a, f, v) == a \in DOMAIN body /\ body' = [body EXCEPT ![a] = [@ EXCEPT ![f] = v]]
Move(a, box) == body[a].box # <<>> /\ Set(a, "box", box) /\ UNCHANGED <<ex, man, tree>>
\* a body that loses its shape is no longer filed; one that gains a shape is filed by the next update
Shape(a, box) == Set(a, "box", box) /\ UNCHANGED <<ex, man>>
                 /\ tree' = IF box = <<>> THEN Restrict(tree, DOMAIN tree \ {a}) ELSE tree
Flag(a, f, v) == Set(a, f, v) /\ UNCHANGED <<ex, man, tree>>
Layer(a, g, m) == body' = [body EXCEPT ![a] = [@ EXCEPT !.g = g, !.m = m]] /\ UNCHANGED <<ex, man, tree>>
Exclude(a, b) == ex' = ex \cup {{a, b}} /\ UNCHANGED <<body, man, tree>>
Allow(a, b) == ex' = ex \ {{a, b}} /\ UNCHANGED <<body, man, tree>>
Kind(a, k) == /\ body' = [body EXCEPT ![a] = [@ EXCEPT !.k = k]]
              /\ man' = IF k = "d" THEN man
                        ELSE Restrict(man, {p \in DOMAIN man : a \notin p \/ \E b \in p \ {a} : Proc(b)})
              \* a body that changes kind is filed under its current box
              /\ tree' = IF a \in DOMAIN tree THEN [tree EXCEPT ![a] = body[a].box] ELSE tree
              /\ UNCHANGED ex
Point(p, n) == p \in DOMAIN man /\ man' = [man EXCEPT ![p] = @ + n] /\ UNCHANGED <<body, ex, tree>>
Stay == {p \in DOMAIN man : Asleep(p) \/ \E a, b \in p : a # b /\ Near(a, b, Break)}
Found == {p \in Pairs(DOMAIN body) : /\ \E a \in p : Active(a)
                                     /\ \E a, b \in p : a # b /\ May(a, b) /\ Near(a, b, Create)}
Filed == {a \in DOMAIN body : body[a].box # <<>>}
Refiled(a) == a \notin DOMAIN tree \/ (body[a].k # "s" /\ ~body[a].sl /\ ~body[a].dis)
Update == /\ man' = [p \in Stay \cup Found |-> IF p \in Stay THEN man[p] ELSE 0]
          /\ tree' = [a \in Filed |-> IF Refiled(a) THEN body[a].box ELSE tree[a]]
          /\ UNCHANGED <<body, ex>>
\* manifolds always join two present bodies, one of them dynamic; only bodies with a box are filed
WellFormed == /\ \A p \in DOMAIN man : p \subseteq DOMAIN body /\ Cardinality(p) = 2 /\ \E a \in p : Proc(a)
              /\ DOMAIN tree \subseteq Filed
=============================================================================
