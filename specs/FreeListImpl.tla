---------------------------- MODULE FreeListImpl ----------------------------
(* The mechanism the code uses: a slot array grown by blocks, with the free  *)
(* slots chained through their `next` field. Checked to refine FreeList.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Values, Block, MaxSlots
VARIABLES val, nxt, free, size     \* arrays (1-based here; index = position - 1)
vars == <<val, nxt, free, size>>
Null == 99
Init == val = <<>> /\ nxt = <<>> /\ free = Null /\ size = 0

Grow(n) == [k \in 1..Block |-> IF k = Block THEN Null ELSE n + k]  \* next of slot n+k-1 is n+k
Insert(v) ==
  LET n == Len(val)
      grown == free = Null
      val1 == IF grown THEN val \o [k \in 1..Block |-> 0] ELSE val
      nxt1 == IF grown THEN nxt \o Grow(n) ELSE nxt
      idx  == IF grown THEN n ELSE free
  IN /\ (grown => n + Block <= MaxSlots)
     /\ val' = [val1 EXCEPT ![idx + 1] = v]
     /\ nxt' = [nxt1 EXCEPT ![idx + 1] = Null]
     /\ free' = nxt1[idx + 1]
     /\ size' = size + 1
Remove(i) == /\ val[i + 1] # 0
             /\ val' = [val EXCEPT ![i + 1] = 0]
             /\ nxt' = [nxt EXCEPT ![i + 1] = free]
             /\ free' = i
             /\ size' = size - 1
Modify(i, v) == /\ val[i + 1] # 0
                /\ val' = [val EXCEPT ![i + 1] = v]
                /\ UNCHANGED <<nxt, free, size>>
Clear == /\ val' = [k \in 1..Len(val) |-> 0]
         /\ nxt' = [k \in 1..Len(val) |-> IF k = Len(val) THEN Null ELSE k]
         /\ free' = IF Len(val) = 0 THEN Null ELSE 0
         /\ size' = 0
Next == \/ \E v \in Values : Insert(v)
        \/ \E i \in 0..(Len(val) - 1) : Remove(i) \/ \E v \in Values : Modify(i, v)
        \/ Clear
Spec == Init /\ [][Next]_vars

RECURSIVE Chain(_, _)
Chain(i, acc) == IF i = Null \/ i \in acc THEN acc ELSE Chain(nxt[i + 1], acc \cup {i})
FreeSet == Chain(free, {})
\* The chain is exactly the set of dead slots: nothing leaks, nothing is handed out twice.
ChainIsDead == FreeSet = {i \in 0..(Len(val) - 1) : val[i + 1] = 0}
SizeIsLive  == size = Cardinality({k \in 1..Len(val) : val[k] # 0})

LiveIdx == {i \in 0..(Len(val) - 1) : val[i + 1] # 0}
Abs == INSTANCE FreeList WITH live <- [i \in LiveIdx |-> val[i + 1]], MaxIndex <- MaxSlots
Refines == Abs!Spec
=============================================================================
