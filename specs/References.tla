------------------------------ MODULE References ------------------------------
(* Component values that hold entities, and how they read under other names.    *)
EXTENDS Integers, Sequences, FiniteSets
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
None == [x \in {} |-> <<>>]
\* entities that cannot be named at the destination become null; lists and dictionaries of entities drop them
Ref(r, known) == IF r \in known THEN r ELSE 0
RECURSIVE Pairs(_, _, _)
Pairs(v, known, drop) ==
    IF v = <<>> THEN <<>>
    ELSE (IF drop /\ Ref(v[2], known) = 0 THEN <<>> ELSE <<v[1], Ref(v[2], known)>>) \o Pairs(SubSeq(v, 3, Len(v)), known, drop)
Translate(k, v, known) ==
    CASE k \in {"v", "t", "P", "O", "L", "A", "h", "i"} -> v
      [] k \in {"l", "a", "q"} -> [i \in DOMAIN v |-> Ref(v[i], known)]
      [] k = "s" -> SelectSeq(v, LAMBDA r : r \in known)
      [] k = "n" -> <<v[1], Ref(v[2], known)>>
      [] k = "d" -> Pairs(v, known, TRUE)
      [] k = "p" -> Pairs(v, known, FALSE)
=============================================================================
