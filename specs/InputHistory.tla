----------------------------- MODULE InputHistory -----------------------------
(* A history of inputs and one-shot actions of networked entities (C28).      *)
(* inp: entity -> per input kind, a sequence of <<time, value>>.              *)
(* act: entity -> sequence of <<time, kind, list of actions>>; seen: entity   *)
(* -> time of the newest action received. Entities are 1..N.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Kinds
VARIABLES inp, act, seen
hvars == <<inp, act, seen>>
Ents == 1..N
Nothing == [e \in Ents |-> [k \in 1..Kinds |-> <<>>]]
HInit == inp = Nothing /\ act = [e \in Ents |-> <<>>] /\ seen = [e \in Ents |-> 0]
\* ins: sequence of <<entity, kind, value>>; acts: sequence of <<entity, log>>
AddInputs(ins, t) ==
  inp' = [e \in Ents |-> [k \in 1..Kinds |->
            LET mine == SelectSeq(ins, LAMBDA r : r[1] = e /\ r[2] = k)
            IN inp[e][k] \o [i \in 1..Len(mine) |-> <<t, mine[i][3]>>]]]
LogOf(acts, e) == LET mine == SelectSeq(acts, LAMBDA r : r[1] = e)
                  IN IF mine = <<>> THEN <<>> ELSE mine[1][2]
AddActions(acts, delta) ==
  LET fresh == [e \in Ents |->
                 LET log == LogOf(acts, e)
                     moved == [i \in 1..Len(log) |-> <<log[i][1] + delta, log[i][2], log[i][3]>>]
                 IN SelectSeq(moved, LAMBDA r : r[1] > seen[e])]
  IN /\ act' = [e \in Ents |-> act[e] \o fresh[e]]
     /\ seen' = [e \in Ents |-> IF fresh[e] = <<>> THEN seen[e] ELSE fresh[e][Len(fresh[e])][1]]
Record(ins, acts, t, delta) == AddInputs(ins, t) /\ AddActions(acts, delta)
EraseUntil(t) ==
  /\ inp' = [e \in Ents |-> [k \in 1..Kinds |-> SelectSeq(inp[e][k], LAMBDA r : r[1] > t)]]
  /\ act' = [e \in Ents |-> SelectSeq(act[e], LAMBDA r : r[1] >= t)]
  /\ UNCHANGED seen
Remove(e) == /\ inp' = [inp EXCEPT ![e] = [k \in 1..Kinds |-> <<>>]]
             /\ act' = [act EXCEPT ![e] = <<>>]
             /\ seen' = [seen EXCEPT ![e] = 0]
\* What importing a window gives: the inputs in it, ends included, in order (the last one
\* remains); the actions in it, the end excluded so that consecutive windows share none.
InWindow(e, k, s, len) == SelectSeq(inp[e][k], LAMBDA r : r[1] >= s /\ r[1] <= s + len)
ActWindow(e, s, len) == SelectSeq(act[e], LAMBDA r : r[1] >= s /\ r[1] < s + len)
Upto(e, k, t) == SelectSeq(inp[e][k], LAMBDA r : r[1] <= t)
RECURSIVE Flat(_, _)
Flat(s, kind) == IF s = <<>> THEN <<>>
                 ELSE (IF Head(s)[2] = kind THEN Head(s)[3] ELSE <<>>) \o Flat(Tail(s), kind)
=============================================================================
