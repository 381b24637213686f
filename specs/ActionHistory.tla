---------------------------- MODULE ActionHistory ----------------------------
(* Merging batches of one sender's timestamped actions (C25). An item is      *)
(* <<id, timestamp>>. A batch is a contiguous window of the sender's log that *)
(* does not separate items with equal timestamps; timestamps are positive.    *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC
VARIABLES entries, seen                 \* what the history holds; every item ever merged
Init == entries = <<>> /\ seen = {}
Fresh(b) == SelectSeq(b, LAMBDA x : x \notin seen)
Merge(b) == entries' = entries \o Fresh(b) /\ seen' = seen \cup ToSet(b)
EraseUntil(t) == entries' = SelectSeq(entries, LAMBDA x : x[2] >= t) /\ UNCHANGED seen
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i][2] <= s[i + 1][2]
SameItems(a, b) == Len(a) = Len(b) /\ ToSet(a) = ToSet(b)    \* items are distinct
\* Sorting: any arrangement of the same items in timestamp order.
Sort(s) == SameItems(s, entries) /\ Sorted(s) /\ entries' = s /\ UNCHANGED seen

OnceEach == Cardinality(ToSet(entries)) = Len(entries)
InOrder  == Sorted(entries)
=============================================================================
