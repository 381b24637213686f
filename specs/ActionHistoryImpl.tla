-------------------------- MODULE ActionHistoryImpl --------------------------
(* The mechanism: append what is newer than the newest timestamp ever merged. *)
(* Checked equal to ActionHistory for every order of overlapping windows.     *)
EXTENDS ActionHistory
MCLog == <<<<1, 1>>, <<2, 2>>, <<3, 2>>, <<4, 3>>, <<5, 4>>, <<6, 4>>>>
CONSTANT Log
VARIABLES last, sent
vars == <<entries, seen, last, sent>>
Window(a, b) == SubSeq(Log, a, b)
Whole(a, b) == /\ (a > 1 => Log[a - 1][2] # Log[a][2])
               /\ (b < Len(Log) => Log[b + 1][2] # Log[b][2])
IInit == Init /\ last = 0 /\ sent = 0
IMerge(a, b) ==
  LET fresh == SelectSeq(Window(a, b), LAMBDA x : x[2] > last)
      e == entries \o fresh
  IN /\ a <= b /\ Whole(a, b) /\ a <= sent + 1     \* nothing skipped
     /\ sent' = IF b > sent THEN b ELSE sent
     /\ last' = IF e = <<>> THEN last ELSE e[Len(e)][2]
     /\ Merge(Window(a, b)) /\ Assert(entries' = e, "mechanism differs")
Next == \/ \E a, b \in 1..Len(Log) : IMerge(a, b)
        \/ \E t \in 1..6 : EraseUntil(t) /\ UNCHANGED <<last, sent>>
ISpec == IInit /\ [][Next]_vars
=============================================================================
