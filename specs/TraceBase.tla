------------------------------ MODULE TraceBase ------------------------------
(* Reading a recorded trace: one line per event, consumed one per step.       *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLE l                                  \* position in the trace
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
TraceAccepted == LET d == TLCGet("stats").diameter
                 IN IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECT", d>>, FALSE)
=============================================================================
