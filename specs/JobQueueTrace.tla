---------------------------- MODULE JobQueueTrace ----------------------------
(* Linearizability of the blocking FIFO queue (C01). `confs` is the set of    *)
(* all configurations consistent with the history: the queue, and per thread  *)
(* with an operation in progress <<op, arg, done?, result>>.                  *)
EXTENDS TraceBase, Integers, FiniteSets
VARIABLE confs
Fn == [x \in {} |-> 0]
Start == {[q |-> <<>>, p |-> Fn]}

\* The instant at which the operation of thread t takes effect in configuration c.
CanTakeEffect(c, t) == ~c.p[t][3] /\ (c.p[t][1] = "pop" => c.q # <<>>)
Effect(c, t) ==
  LET op == c.p[t][1]
      fin(r) == [c.p EXCEPT ![t] = <<op, @[2], TRUE, r>>]
  IN CASE op = "push" -> [q |-> Append(c.q, c.p[t][2]), p |-> fin(0)]
       [] op = "pop"  -> [q |-> Tail(c.q), p |-> fin(Head(c.q))]
       [] op = "try"  -> IF c.q = <<>> THEN [q |-> c.q, p |-> fin(0)] ELSE [q |-> Tail(c.q), p |-> fin(Head(c.q))]
       [] op = "size" -> [q |-> c.q, p |-> fin(Len(c.q))]
RECURSIVE Close(_)
Close(S) == LET N == S \cup UNION {{Effect(c, t) : t \in {u \in DOMAIN c.p : CanTakeEffect(c, u)}} : c \in S}
            IN IF N = S THEN S ELSE Close(N)
Calls(t, op, a) == confs' = Close({[q |-> c.q, p |-> (t :> <<op, a, FALSE, 0>>) @@ c.p] : c \in confs})
Returns(t, r) == LET ok == {c \in confs : t \in DOMAIN c.p /\ c.p[t][3] /\ c.p[t][4] = r}
                 IN /\ ok # {}
                    /\ confs' = {[q |-> c.q, p |-> [u \in DOMAIN c.p \ {t} |-> c.p[u]]] : c \in ok}
\* Nothing can move: only pops on an empty queue may be in progress.
IsIdle == LET ok == {c \in confs : \A t \in DOMAIN c.p : c.p[t][1] = "pop" /\ ~c.p[t][3] /\ c.q = <<>>}
          IN ok # {} /\ confs' = ok
TNext == \/ IsEvent("reset") /\ confs' = Start
         \/ IsEvent("call") /\ Calls(E.t, E.op, E.a)
         \/ IsEvent("ret") /\ Returns(E.t, E.r)
         \/ IsEvent("idle") /\ IsIdle
TraceSpec == confs = Start /\ l = 1 /\ [][TNext]_<<confs, l>>
=============================================================================
