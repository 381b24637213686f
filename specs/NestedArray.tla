----------------------------- MODULE NestedArray -----------------------------
(* An array of arrays (C07): appending goes to the last nested array.         *)
EXTENDS Naturals, Sequences, TLC
VARIABLE arrays
Init == arrays = <<>>
PushArray   == arrays' = Append(arrays, <<>>)
PushBack(v) == /\ arrays # <<>>
               /\ arrays' = [arrays EXCEPT ![Len(arrays)] = Append(@, v)]
Keep == UNCHANGED arrays
=============================================================================
