---------------------------- MODULE CollideTrace ----------------------------
EXTENDS Collide, TraceBase
Rng(s) == {s[i] : i \in DOMAIN s}
Flt == [g |-> Rng(E.g), m |-> Rng(E.m)]
(* after every step, should_collide for the ordered pairs <<a, b, answer>> *)
Observed == \A k \in DOMAIN E.q : LET q == E.q[k] IN
              q[1] \in DOMAIN filter' /\ q[2] \in DOMAIN filter' /\ (q[3] = 1) = Allowed(filter', excl', q[1], q[2])
TReset == IsEvent("reset") /\ filter' = <<>> /\ excl' = {}
TNew == IsEvent("new") /\ Create(E.a, Flt) /\ Observed
TFil == IsEvent("fil") /\ SetFilter(E.a, Flt) /\ Observed
TExc == IsEvent("exc") /\ Exclude(E.a, E.b) /\ Observed
TRem == IsEvent("rem") /\ Remove(E.a, E.b) /\ Observed
TClr == IsEvent("clr") /\ Clear(E.a) /\ Observed
TDel == IsEvent("del") /\ Destroy(E.a) /\ Observed
TraceSpec == CInit /\ l = 1 /\ [][TReset \/ TNew \/ TFil \/ TExc \/ TRem \/ TClr \/ TDel]_<<cvars, l>>
=============================================================================
