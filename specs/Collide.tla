------------------------------- MODULE Collide -------------------------------
(* Which pairs of bodies may collide (C36): the filters of both must allow it *)
(* and no exclusion may exist between the two.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Bits == {0, 1, 31, 32, 63}           \* the bits of group and mask words that are used
VARIABLES filter,                    \* living body -> [g |-> bits, m |-> bits]; a body without filter has all bits
          excl                       \* set of two-element sets of living bodies
cvars == <<filter, excl>>
Bodies == DOMAIN filter
All == [g |-> Bits, m |-> Bits]
CInit == filter = <<>> /\ excl = {}
Create(b, f) == b \notin Bodies /\ filter' = filter @@ (b :> f) /\ UNCHANGED excl
SetFilter(b, f) == b \in Bodies /\ filter' = [filter EXCEPT ![b] = f] /\ UNCHANGED excl
Exclude(a, b) == a \in Bodies /\ b \in Bodies /\ a # b /\ excl' = excl \cup {{a, b}} /\ UNCHANGED filter
Remove(a, b) == {a, b} \in excl /\ excl' = excl \ {{a, b}} /\ UNCHANGED filter
Clear(a) == a \in Bodies /\ excl' = {p \in excl : a \notin p} /\ UNCHANGED filter
Destroy(a) == /\ a \in Bodies
              /\ filter' = [b \in Bodies \ {a} |-> filter[b]]
              /\ excl' = {p \in excl : a \notin p}
Allowed(f, x, a, b) == /\ a # b
                       /\ f[a].g \cap f[b].m # {}
                       /\ f[b].g \cap f[a].m # {}
                       /\ {a, b} \notin x
MayCollide(a, b) == Allowed(filter, excl, a, b)
Symmetric == \A a, b \in Bodies : MayCollide(a, b) = MayCollide(b, a)
TypeOK == excl \subseteq SUBSET Bodies /\ \A p \in excl : Cardinality(p) = 2
=============================================================================
