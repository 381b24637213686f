------------------------------- MODULE RowPrep -------------------------------
(* Preparation cache of constraint rows (C24). cons: per constraint, its rows *)
(* in order; a row is <<tag, tag+1, friction, rolling, spinning, error, erp,  *)
(* restitution>> with 0 for an absent friction row. next: next to hand back.  *)
EXTENDS Naturals, Sequences, TLC
VARIABLES cons, next
vars == <<cons, next>>
Init == cons = <<>> /\ next = 1
DefaultOptions == <<0, 200, 0>>                  \* error 0, erp 0.2, restitution 0 (thousandths)
AddConstraint == cons' = Append(cons, <<>>) /\ UNCHANGED next
Rows == cons[Len(cons)]
WithRows(r) == cons' = [cons EXCEPT ![Len(cons)] = r] /\ UNCHANGED next
AddRow(t) == cons # <<>> /\ WithRows(Append(Rows, <<t, t + 1, 0, 0, 0>> \o DefaultOptions))
SetField(f, v) == cons # <<>> /\ Rows # <<>> /\ Rows[Len(Rows)][f] = 0
                  /\ WithRows([Rows EXCEPT ![Len(Rows)][f] = v])
Friction(t) == SetField(3, t)
Rolling(t)  == SetField(4, t)
Spinning(t) == SetField(5, t)
Options(e, p, r) == cons # <<>> /\ Rows # <<>>
                    /\ WithRows([Rows EXCEPT ![Len(Rows)] = SubSeq(@, 1, 5) \o <<e, p, r>>])
Consume == next <= Len(cons) /\ next' = next + 1 /\ UNCHANGED cons
Clear == cons' = <<>> /\ next' = 1
=============================================================================
