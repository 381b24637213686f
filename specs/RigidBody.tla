------------------------------ MODULE RigidBody ------------------------------
(* Rigid bodies: what kind of body an entity is, what follows from it, and how its state answers to the         *)
(* functions that change it.  Lengths are in quarter metres, velocities in metres per second, a time step is a   *)
(* quarter of a second; orientations are quarter turns about the z axis.  `turn` counts quarter turns per step.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE body          \* entity -> record, or <<>> for an entity that is no rigid body
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Mul(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Zero == <<0, 0, 0>>
\* q quarter turns about z
Rot(q, v) == CASE q % 4 = 0 -> v [] q % 4 = 1 -> <<-v[2], v[1], v[3]>> [] q % 4 = 2 -> <<-v[1], -v[2], v[3]>> [] q % 4 = 3 -> <<v[2], -v[1], v[3]>>
Origin(b) == Sub(b.pos, Mul(4, Rot(b.orn, b.com)))

\* half extents, in quarter metres, of the shapes used: box, sphere, capsule along x, cylinder along x
Ext(s) == CASE s = 1 -> <<4, 8, 12>> [] s = 2 -> <<8, 8, 8>> [] s = 3 -> <<12, 4, 4>> [] s = 4 -> <<8, 4, 4>>
Box(b) == LET e == Ext(b.shape) f == IF b.orn % 2 = 0 THEN e ELSE <<e[2], e[1], e[3]>>
          IN <<Sub(Origin(b), f), Add(Origin(b), f)>>

Make(e, b0) == /\ body[e] = <<>>
               \* the given position is that of the origin; the given velocity that of the origin
               /\ LET at == Mul(4, Rot(b0.orn, b0.com))
                      b == [b0 EXCEPT !.pos = Add(b0.pos, at), !.lin = Add(b0.lin, Cross(b0.ang, Rot(b0.orn, b0.com)))]
                  IN body' = [body EXCEPT ![e] = IF b.k = "s" THEN [b EXCEPT !.lin = Zero, !.ang = Zero] ELSE b]
Clear(e) == body[e] # <<>> /\ body' = [body EXCEPT ![e] = <<>>]
Kind(e, k) == /\ k = "d" => body[e].m > 0 /\ body[e].i # <<>>
              /\ body' = [body EXCEPT ![e] = IF k = "s" THEN [@ EXCEPT !.k = k, !.lin = Zero, !.ang = Zero, !.turn = 0, !.sl = "no"]
                                             ELSE [@ EXCEPT !.k = k, !.sl = IF k = "d" /\ body[e].k = "d" THEN body[e].sl ELSE "no"]]
Mass(e, m) == body' = [body EXCEPT ![e].m = m]
Inertia(e, i) == body' = [body EXCEPT ![e].i = i]
Com(e, c) == LET b == body[e] d == Rot(b.orn, Sub(c, b.com))
             IN body' = [body EXCEPT ![e] = [@ EXCEPT !.com = c, !.pos = Add(b.pos, Mul(4, d)),
                                                      !.lin = IF b.k = "s" THEN b.lin ELSE Add(b.lin, Cross(b.ang, d))]]
SetOrigin(e, o) == LET b == body[e] IN body' = [body EXCEPT ![e].pos = Add(o, Mul(4, Rot(b.orn, b.com)))]
\* the inverse of the tensor of inertia times the torque, in the body's frame; i = <<xx, yy, zz, xz>>
Spin(b, t) == LET u == Rot(4 - b.orn, t) i == b.i d == i[1] * i[3] - i[4] * i[4]
              IN Rot(b.orn, <<(u[1] * i[3] - u[3] * i[4]) \div d, u[2] \div i[2], (u[3] * i[1] - u[1] * i[4]) \div d>>)
Impulse(e, j, r) == LET b == body[e] IN
    /\ b.k = "d"
    /\ body' = [body EXCEPT ![e] = [@ EXCEPT !.lin = Add(b.lin, <<j[1] \div b.m, j[2] \div b.m, j[3] \div b.m>>),
                                             !.ang = Add(b.ang, Spin(b, Cross(r, j))), !.sl = "no"]]
Torque(e, t) == body[e].k = "d" /\ body' = [body EXCEPT ![e] = [@ EXCEPT !.ang = Add(@, Spin(body[e], t)), !.sl = "no"]]
\* a kinematic body is moved, and carries the velocity of that motion
KinPos(e, p) == body[e].k = "k" /\ body' = [body EXCEPT ![e] = [@ EXCEPT !.lin = Sub(p, body[e].pos), !.pos = p]]
KinOrn(e, q) == /\ body[e].k = "k"
                /\ body' = [body EXCEPT ![e] = [@ EXCEPT !.orn = q, !.ang = Zero, !.turn = LET d == (q - body[e].orn) % 4 IN IF d = 3 THEN -1 ELSE d]]
Shape(e, s) == body' = [body EXCEPT ![e].shape = s]
\* n time steps without forces: dynamic bodies move by their velocity, the others not at all; those at rest
\* for more than two seconds are asleep, and those that move are not
AtRest(b) == b.k = "d" /\ b.lin = Zero /\ b.ang = Zero /\ b.turn = 0
Step(n) == body' = [e \in DOMAIN body |-> IF body[e] = <<>> \/ body[e].k # "d" THEN body[e]
                       ELSE [body[e] EXCEPT !.pos = Add(@, Mul(n, body[e].lin)),
                                            !.sl = IF body[e].nosleep \/ ~AtRest(body[e]) THEN "no" ELSE IF n >= 12 THEN "yes"
                                                   ELSE IF @ = "yes" THEN "yes" ELSE "maybe"]]

\* the components of a body
Tags(k) == CASE k = "d" -> {"dynamic", "procedural"} [] k = "k" -> {"kinematic"} [] OTHER -> {"static"}
Must(b) == {"rigidbody", "position", "orientation", "node"} \cup Tags(b.k)
           \cup (IF b.k = "d" THEN {"island", "mass", "mass_inv", "inertia", "inertia_inv", "inertia_world"} ELSE {"multi"})
           \cup (IF b.k = "s" THEN {} ELSE {"linvel", "angvel"})
           \cup (IF b.com = Zero THEN {} ELSE {"com", "origin"})
           \cup (IF b.shape = 0 THEN {} ELSE {"shape", "shape_index", "aabb"})
           \cup (IF b.nosleep THEN {"nosleep"} ELSE {})
           \cup (IF b.k = "d" /\ b.sl = "yes" THEN {"sleeping"} ELSE {})
MustNot(b) == (({"dynamic", "procedural", "kinematic", "static"} \ Tags(b.k)))
           \cup (IF b.k = "d" THEN {"multi"} ELSE {"island", "sleeping"})
           \cup (IF b.com = Zero THEN {"com", "origin"} ELSE {})
           \cup (IF b.shape = 0 THEN {"shape", "shape_index", "aabb", "rolling", "roll_dir"} ELSE {})
           \cup (IF b.nosleep THEN {} ELSE {"nosleep"})
           \cup (IF b.sl = "no" THEN {"sleeping"} ELSE {})
=============================================================================
