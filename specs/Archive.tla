------------------------------- MODULE Archive -------------------------------
(* Archives.  The state machine is a byte buffer that is first written and     *)
(* then, possibly truncated, read: a read that does not fit fails, leaves its  *)
(* destination alone, and so does every later one.  Values of structured types *)
(* are flattened to integers by the driver; for those the specification states *)
(* the round trip and what truncation does.                                    *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES buf, pos, failed, reading
Init == buf = <<>> /\ pos = 0 /\ failed = FALSE /\ reading = FALSE
Write(b) == ~reading /\ buf' = buf \o b /\ UNCHANGED <<pos, failed, reading>>
Open(n) == /\ ~reading /\ n \in 0..Len(buf)
           /\ buf' = SubSeq(buf, 1, n) /\ pos' = 0 /\ failed' = FALSE /\ reading' = TRUE
Fits(sz) == ~failed /\ pos + sz <= Len(buf)
Read(sz) == /\ reading /\ UNCHANGED <<buf, reading>>
            /\ IF Fits(sz) THEN pos' = pos + sz /\ UNCHANGED failed
                           ELSE failed' = TRUE /\ UNCHANGED pos
\* what the destination (filled with `old` before) holds after the read
Result(sz, old) == IF Fits(sz) THEN SubSeq(buf, pos + 1, pos + sz) ELSE old
Eof == pos = Len(buf)
InBounds == pos <= Len(buf)
Reset == buf' = <<>> /\ pos' = 0 /\ failed' = FALSE /\ reading' = FALSE
-----------------------------------------------------------------------------
RoundTrip(E) == /\ E.after = E.v                    \* writing leaves the value alone
                /\ E.back = E.v /\ ~E.failed /\ E.eof
                /\ E.fback = E.v /\ E.fpos = E.fsize
                /\ (E.ann >= 0 => E.ann = E.n)      \* the announced size is the written one
Twice(E) == E.x = E.v /\ E.y = E.w /\ E.mark /\ ~E.failed /\ E.eof
Long(E) == E.got = E.want /\ E.same /\ ~E.failed /\ E.eof
\* truncated inputs: failure exactly when something is missing, and it is final
Truncated(E) ==
    \A i \in 1..Len(E.at) :
        /\ E.failed[i] = (IF E.at[i] < E.n THEN 1 ELSE 0)
        /\ E.keep[i] = 1                            \* nothing further is read
        /\ E.still[i] = 1                           \* and that is noticed
        /\ E.det[i] = 1                             \* what was missing is not made up from stray memory
\* outputs into a buffer of fixed size: failure exactly when too small, never a byte past the end
Bounded(E) ==
    \A i \in 1..Len(E.at) :
        /\ E.fixed[i] = (IF E.at[i] < E.n THEN 1 ELSE 0)
        /\ E.clean[i] = 1
        /\ E.same[i] = 1
=============================================================================
