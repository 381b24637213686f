------------------------------ MODULE ClockSync ------------------------------
(* Clock synchronisation with a remote peer (C27): the state of one side and  *)
(* its reaction to the passage of time and to responses. Times are integers.  *)
(* Thresholds that are met exactly may be decided either way.                 *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
Fresh == [st |-> "none", reqT |-> 0, id |-> 0, rtt0 |-> 0, ts0 |-> 0, smp |-> <<>>,
          num |-> 0, den |-> 1, count |-> 0]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
\* The answers a comparison a > b may give.
Gt(a, b) == IF a = b THEN {TRUE, FALSE} ELSE {a > b}
Start(c, t, id) == [c EXCEPT !.st = "req0", !.reqT = t, !.id = id]

\* Results: <<state, whether a request was sent>>; id is the id of the request, if sent.
Update(c, t, rtt, delay, period, id) ==
  LET starts == CASE c.st = "none" -> IF c.count = 0 THEN {TRUE} ELSE Gt(t - c.reqT, period)
                  [] c.st = "wait" -> Gt(t - c.reqT, delay)
                  [] OTHER -> Gt(10 * (t - c.reqT), 14 * rtt)    \* taken as lost
  IN {IF s THEN <<Start(c, t, id), TRUE>> ELSE <<c, FALSE>> : s \in starts}

\* samples and the offset are kept in half ticks: offset = num / (2 den)
Response(c, rid, ts, t, id, max) ==
  IF c.st \notin {"req0", "req1"} \/ rid # c.id THEN {<<c, FALSE>>}
  ELSE IF c.st = "req0"
  THEN {<<[c EXCEPT !.st = "req1", !.rtt0 = t - c.reqT, !.ts0 = ts, !.reqT = t, !.id = id], TRUE>>}
  ELSE
    LET rtt1 == t - c.reqT
        bad == {a \/ b : a \in Gt(10 * Abs(c.rtt0 - rtt1), c.rtt0),
                         b \in Gt(10 * Abs(c.rtt0 + rtt1 - 2 * (ts - c.ts0)), c.rtt0 + rtt1)}
        smp == Append(c.smp, 2 * (t - ts) - rtt1)
        good == IF Len(smp) = max
                THEN [c EXCEPT !.st = "none", !.reqT = t, !.smp = <<>>, !.num = Sum(smp), !.den = max, !.count = @ + 1]
                ELSE IF c.count = 0
                THEN [c EXCEPT !.st = "wait", !.reqT = t, !.smp = smp, !.num = Sum(smp), !.den = Len(smp)]
                ELSE [c EXCEPT !.st = "wait", !.reqT = t, !.smp = smp]
    IN {IF b THEN <<Start(c, t, id), TRUE>> ELSE <<good, FALSE>> : b \in bad}
=============================================================================
