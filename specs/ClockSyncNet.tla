----------------------------- MODULE ClockSyncNet -----------------------------
(* The protocol over a network that loses, duplicates, delays and reorders    *)
(* (model checked): the offset only ever comes from responses to the pending  *)
(* request, so its error is at most half of the longest round trip accepted;  *)
(* and when the network is good, synchronisation finishes in bounded time.    *)
EXTENDS ClockSync
CONSTANTS Off, Latency, Rtt, Delay, Period, Max, TMax, Faults, Deadline
VARIABLES c, now, net, nid, faults, worst, last
vars == <<c, now, net, nid, faults, worst, last>>
\* net: messages in flight: <<"q", id, sent>> or <<"r", id, stamp, sent>>
Init == c = Fresh /\ now = 0 /\ net = {} /\ nid = 1 /\ faults = Faults /\ worst = 0 /\ last = -1
Put(m) == net \cup {m}
Tick == /\ now < TMax
        /\ last = now                                      \* update runs every tick
        /\ (faults = 0 => \A m \in net : now - m[Len(m)] < Latency)   \* due messages arrive first
        /\ now' = now + 1
        /\ UNCHANGED <<c, net, nid, faults, worst, last>>
Upd == /\ last # now /\ last' = now
       /\ \E r \in Update(c, now, Rtt, Delay, Period, nid) :
            /\ c' = r[1]
            /\ nid' = IF r[2] THEN nid + 1 ELSE nid
            /\ net' = IF r[2] THEN Put(<<"q", nid, now>>) ELSE net
       /\ UNCHANGED <<now, faults, worst>>
\* the remote stamps and answers
Serve == \E m \in net : /\ m[1] = "q"
                        /\ (now - m[3] >= Latency \/ faults > 0)
                        /\ net' = (net \ {m}) \cup {<<"r", m[2], now + Off, now>>}
                        /\ faults' = IF now - m[3] = Latency THEN faults ELSE IF faults > 0 THEN faults - 1 ELSE 0
                        /\ UNCHANGED <<c, now, nid, worst, last>>
Deliver(keep) ==
  \E m \in net : /\ m[1] = "r"
                 /\ (now - m[4] >= Latency \/ faults > 0)
                 /\ (keep => faults > 0)
                 /\ faults' = IF keep \/ (now - m[4] # Latency /\ faults > 0) THEN faults - 1 ELSE faults
                 /\ \E r \in Response(c, m[2], m[3], now, nid, Max) :
                      /\ c' = r[1]
                      /\ nid' = IF r[2] THEN nid + 1 ELSE nid
                      /\ net' = LET b == IF keep THEN net ELSE net \ {m}
                                IN IF r[2] THEN b \cup {<<"q", nid, now>>} ELSE b
                      /\ worst' = IF c.st = "req1" /\ c'.st \in {"wait", "none"} /\ now - c.reqT > worst
                                  THEN now - c.reqT ELSE worst
                 /\ UNCHANGED <<now, last>>
Lose == /\ faults > 0 /\ faults' = faults - 1
        /\ \E m \in net : net' = net \ {m}
        /\ UNCHANGED <<c, now, nid, worst, last>>
Next == Tick \/ Upd \/ Serve \/ Deliver(FALSE) \/ Deliver(TRUE) \/ Lose
Spec == Init /\ [][Next]_vars
\* offset = local - remote = -Off; num/(2 den) within worst/2 of it.
OffsetSound == (c.count > 0 \/ c.smp # <<>>) => Abs(c.num + 2 * c.den * Off) <= c.den * worst
Pending == c.st \in {"req0", "req1"} => c.id < nid
OneSampleEach == Len(c.smp) < Max
\* with a fault-free network the first synchronisation is done by the deadline
InTime == (Faults = 0 /\ now >= Deadline) => c.count > 0
=============================================================================
