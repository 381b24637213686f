--------------------------- MODULE RigidBodyTrace ---------------------------
EXTENDS RigidBody, TraceBase
Rng(s) == {s[i] : i \in DOMAIN s}
Near(x, y) == x - y <= 4 /\ y - x <= 4
NearV(v, w) == Near(v[1], w[1]) /\ Near(v[2], w[2]) /\ Near(v[3], w[3])
V(v) == <<v[1], v[2], v[3]>>
T4(v) == <<v[1], v[2], v[3], v[4]>>
Names == {"rigidbody", "position", "orientation", "node", "dynamic", "procedural", "kinematic", "static", "island", "multi", "mass", "mass_inv",
          "inertia", "inertia_inv", "inertia_world", "linvel", "angvel", "com", "origin", "shape", "shape_index", "aabb", "nosleep", "sleeping"}
\* one entity as the code shows it (x), and as it should be (b); `settled` when a step has just been run
Ang(b, a) == LET w == Mul(1000, b.ang) IN
    \/ NearV(a, Add(w, <<0, 0, 6283 * b.turn>>))
    \/ b.turn = 2 /\ NearV(a, Add(w, <<0, 0, -12566>>))    \* half a turn either way
Ent(x, b, settled, fresh) ==
    IF b = <<>> THEN x.comps = <<>>
    ELSE /\ x.fin
         /\ Must(b) \ (IF settled THEN {} ELSE {"sleeping"}) \subseteq Rng(x.comps)
         /\ Rng(x.comps) \cap (MustNot(b) \ (IF settled \/ fresh THEN {} ELSE {"sleeping"})) = {}
         /\ NearV(x.pos, Mul(1000, b.pos)) /\ x.orn = b.orn % 4
         /\ IF b.k = "s" THEN \A i \in 1..3 : x.lin[i] = 0 /\ x.ang[i] = 0     \* absent or zero
            ELSE NearV(x.lin, Mul(1000, b.lin)) /\ Ang(b, x.ang)
         /\ (b.m > 0 => Near(x.m, 1000 * b.m) /\ Near(x.minv, 1000 \div b.m))
         /\ NearV(x.org, Mul(1000, Origin(b)))
         /\ (settled /\ b.com # Zero => NearV(x.orgc, Mul(1000, Origin(b))))
         /\ (settled /\ b.shape # 0 => NearV(x.lo, Mul(1000, Box(b)[1])) /\ NearV(x.hi, Mul(1000, Box(b)[2])))
         /\ x.conn = (b.k = "d") /\ (settled => x.isl = (b.k = "d"))
One(b, fresh) == Ent(E.x, b, FALSE, fresh)
TReset == IsEvent("reset") /\ body' = [e \in 1..E.n |-> <<>>]
Def == [k |-> E.k, pos |-> V(E.pos), orn |-> E.orn, com |-> V(E.com), lin |-> V(E.lin), ang |-> V(E.ang), turn |-> 0,
        m |-> IF E.k = "d" THEN E.m ELSE 0, i |-> IF E.k = "d" THEN T4(E.i) ELSE <<>>, shape |-> E.shape, nosleep |-> E.ns, sl |-> "no"]
TMake == IsEvent("make") /\ Make(E.a, Def) /\ One(body'[E.a], TRUE)
TClear == IsEvent("clear") /\ Clear(E.a) /\ One(body'[E.a], TRUE)
TKind == IsEvent("kind") /\ Kind(E.a, E.k) /\ One(body'[E.a], FALSE)
TMass == IsEvent("mass") /\ Mass(E.a, E.m) /\ One(body'[E.a], FALSE)
TInertia == IsEvent("inertia") /\ Inertia(E.a, T4(E.i)) /\ One(body'[E.a], FALSE)
TCom == IsEvent("com") /\ Com(E.a, V(E.c)) /\ One(body'[E.a], FALSE)
TOrigin == IsEvent("origin") /\ SetOrigin(E.a, V(E.o)) /\ One(body'[E.a], FALSE)
TImpulse == IsEvent("impulse") /\ Impulse(E.a, V(E.j), V(E.r)) /\ One(body'[E.a], FALSE)
TTorque == IsEvent("torque") /\ Torque(E.a, V(E.t)) /\ One(body'[E.a], FALSE)
TKinPos == IsEvent("kinpos") /\ KinPos(E.a, V(E.p)) /\ One(body'[E.a], FALSE)
TKinOrn == IsEvent("kinorn") /\ KinOrn(E.a, E.q) /\ One(body'[E.a], FALSE)
TShape == IsEvent("shape") /\ Shape(E.a, E.s) /\ One(body'[E.a], FALSE)
TStep == IsEvent("step") /\ Step(E.n) /\ \A e \in DOMAIN body : Ent(E.x[e], body'[e], TRUE, FALSE)
TraceSpec == /\ body = <<>> /\ l = 1
             /\ [][TReset \/ TMake \/ TClear \/ TKind \/ TMass \/ TInertia \/ TCom \/ TOrigin \/ TImpulse \/ TTorque \/ TKinPos \/ TKinOrn \/ TShape \/ TStep]_<<body, l>>
=============================================================================
