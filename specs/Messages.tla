------------------------------ MODULE Messages ------------------------------
(* Named message queues (C05). Sends and updates take time (begin and end     *)
(* events); a message takes its place in the queue somewhere in between.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES now,        \* event counter
          queues,     \* existing queue names
          msgs,       \* id -> [q, from, kind, b, e, live]: e = 0 while the send is under way; live: not dropped by a clear
          delivered,  \* ids
          owed,       \* queue -> set of ids its running update must deliver ({} when none runs)
          running,    \* queues being updated
          pushes      \* queue -> number of push notifications seen
vars == <<now, queues, msgs, delivered, owed, running, pushes>>
NoMsgs == [x \in {} |-> <<>>]
Init == now = 1 /\ queues = {} /\ msgs = NoMsgs /\ delivered = {} /\ owed = NoMsgs /\ running = {} /\ pushes = NoMsgs
Handled == {"a", "b"}                     \* message types the owners listen for; others are ignored
Tick == now' = now + 1
MakeQueue(q) == Tick /\ queues' = queues \cup {q} /\ pushes' = (q :> (IF q \in queues THEN pushes[q] ELSE 0)) @@ pushes
                /\ UNCHANGED <<msgs, delivered, owed, running>>
(* known: whether the queue existed when the send began (or was being made)   *)
SendBegin(id, q, from, kind) ==
  /\ Tick /\ id \notin DOMAIN msgs
  /\ msgs' = (id :> [q |-> q, from |-> from, kind |-> kind, b |-> now, e |-> 0, live |-> q \in queues]) @@ msgs
  /\ UNCHANGED <<queues, delivered, owed, running, pushes>>
SendEnd(id) == Tick /\ id \in DOMAIN msgs /\ msgs[id].e = 0 /\ msgs' = [msgs EXCEPT ![id].e = now]
               /\ UNCHANGED <<queues, delivered, owed, running, pushes>>
Due(q) == {id \in DOMAIN msgs : msgs[id].q = q /\ msgs[id].live /\ msgs[id].kind \in Handled /\ id \notin delivered}
UpdateBegin(q) == /\ Tick /\ q \notin running /\ running' = running \cup {q}
                  /\ owed' = (q :> {id \in Due(q) : msgs[id].e # 0}) @@ owed
                  /\ UNCHANGED <<queues, msgs, delivered, pushes>>
Deliver(q, id, from, kind) ==
  /\ Tick /\ q \in running /\ id \in Due(q)
  /\ msgs[id].from = from /\ msgs[id].kind = kind
  /\ \A o \in Due(q) : ~(msgs[o].e # 0 /\ msgs[o].e < msgs[id].b)      \* nothing sent earlier is still waiting
  /\ delivered' = delivered \cup {id}
  /\ UNCHANGED <<queues, msgs, owed, running, pushes>>
UpdateEnd(q) == Tick /\ q \in running /\ running' = running \ {q} /\ owed[q] \subseteq delivered
                /\ UNCHANGED <<queues, msgs, delivered, owed, pushes>>
Push(q) == Tick /\ q \in queues /\ pushes' = [pushes EXCEPT ![q] = @ + 1] /\ UNCHANGED <<queues, msgs, delivered, owed, running>>
(* clearing drops every queue with what it holds *)
ClearQueues == /\ Tick /\ queues' = {} /\ msgs' = [id \in DOMAIN msgs |-> [msgs[id] EXCEPT !.live = FALSE]]
               /\ UNCHANGED <<delivered, owed, running, pushes>>
(* at rest, after a last update of every queue: nothing lost *)
Rest == /\ \A q \in queues : Due(q) = {}
        /\ \A q \in queues : pushes[q] = Cardinality({id \in DOMAIN msgs : msgs[id].q = q /\ msgs[id].live})
        /\ UNCHANGED vars
=============================================================================
