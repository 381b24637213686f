--------------------------- MODULE NestedArrayImpl ---------------------------
(* The flat representation (one data sequence and the start of every nested   *)
(* array), checked to refine NestedArray.                                     *)
EXTENDS Naturals, Sequences, TLC
CONSTANT Max
VARIABLES data, starts
Init == data = <<>> /\ starts = <<>>
PushArray == Len(starts) < Max /\ starts' = Append(starts, Len(data)) /\ UNCHANGED data
PushBack(v) == starts # <<>> /\ Len(data) < Max /\ data' = Append(data, v) /\ UNCHANGED starts
Next == PushArray \/ PushBack(Len(data) + 1)
Spec == Init /\ [][Next]_<<data, starts>>
Nested(i) == SubSeq(data, starts[i] + 1, IF i < Len(starts) THEN starts[i + 1] ELSE Len(data))
AbsArrays == [i \in 1..Len(starts) |-> Nested(i)]
Abs == INSTANCE NestedArray WITH arrays <- AbsArrays
AbsNext == Abs!PushArray \/ \E v \in 1..Max : Abs!PushBack(v)
Refines == Abs!Init /\ [][AbsNext]_AbsArrays
=============================================================================
