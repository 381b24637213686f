----------------------------- MODULE MaterialMix -----------------------------
(* Material combinations (C10): keyed by the unordered pair of ids.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE table                     \* function: set of one or two ids -> value
Empty == [x \in {} |-> 0]
Init == table = Empty
Key(a, b) == {a, b}
Insert(a, b, v) == table' = (Key(a, b) :> v) @@ table
Remove(a, b)    == table' = [k \in DOMAIN table \ {Key(a, b)} |-> table[k]]
Lookup(t, a, b) == IF Key(a, b) \in DOMAIN t THEN t[Key(a, b)] ELSE 0

(* Default mixing: a and b are in eighths, results in 1/8000 (1/1000 of an eighth). *)
Abs(x) == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Same(p) == p[1] = p[2]
MinMix(a, b, p) == Same(p) /\ p[1] = 1000 * Min(a, b)
MaxMix(a, b, p) == Same(p) /\ p[1] = 1000 * Max(a, b)
\* p = 1000 sqrt(ab): the integer part of the root is bracketed by the two neighbours
RootMix(a, b, p) == /\ Same(p) /\ p[1] >= 0
                    /\ LET q == p[1] \div 100                 \* root in tenths of an eighth, rounded down
                       IN (q = 0 \/ (q - 1) * (q - 1) <= 100 * a * b) /\ 100 * a * b <= (q + 2) * (q + 2)
                    /\ \A s \in 0..25 : (s * s = a * b) => Abs(p[1] - 1000 * s) <= 1
\* parallel combination: p (a + b) = 1000 a b, up to rounding of p
HarmMix(a, b, p) == Same(p) /\ Abs((p[1] * (a + b)) - 1000 * a * b) <= a + b
=============================================================================
