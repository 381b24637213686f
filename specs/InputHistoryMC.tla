--------------------------- MODULE InputHistoryMC ---------------------------
(* A client's action log is sent again and again; whatever is resent, merged  *)
(* and erased, importing consecutive windows gives each action exactly once   *)
(* and in order (model checked).                                              *)
EXTENDS InputHistory
CONSTANTS TMax
VARIABLES now, sent, done, cursor
vars == <<inp, act, seen, now, sent, done, cursor>>
Init == HInit /\ now = 1 /\ sent = <<>> /\ done = <<>> /\ cursor = 1
Entry(t) == <<t, 1, <<t>> >>
Do == now < TMax /\ now' = now + 1 /\ (sent' = Append(sent, Entry(now)) \/ sent' = sent) /\ UNCHANGED <<inp, act, seen, done, cursor>>
\* the window sent starts anywhere up to the first action not yet received
Send == \E i \in 1..(Len(sent) + 1) :
          /\ \A j \in 1..Len(sent) : (j < i) => sent[j][1] <= seen[1]
          /\ Record(<<>>, <<<<1, SubSeq(sent, i, Len(sent))>>>>, now, 0)
          /\ UNCHANGED <<now, sent, done, cursor>>
\* time windows are imported once everything in them has arrived
Import == /\ \A j \in 1..Len(sent) : sent[j][1] < cursor + 1 => sent[j][1] <= seen[1]
          /\ cursor + 1 <= now
          /\ done' = done \o Flat(ActWindow(1, cursor, 1), 1)
          /\ cursor' = cursor + 1
          /\ UNCHANGED <<inp, act, seen, now, sent>>
Erase == \E t \in 1..cursor : EraseUntil(t) /\ UNCHANGED <<now, sent, done, cursor>>
Next == Do \/ Send \/ Import \/ Erase
Spec == Init /\ [][Next]_vars
OnceInOrder == done = Flat(SelectSeq(sent, LAMBDA r : r[1] < cursor), 1)
=============================================================================
