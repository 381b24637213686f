-------------------------- MODULE MessageQueueImpl --------------------------
(* The mechanism: senders append under the queue's mutex; the owner takes the *)
(* whole content under the mutex and handles it without holding it, and may   *)
(* itself send to the queue while handling. Every interleaving.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Senders, PerSender, Updates, Echo     \* Echo: messages the owner sends while handling
VARIABLES queue, owner, pc, sent, batch, got, ups, echoed
vars == <<queue, owner, pc, sent, batch, got, ups, echoed>>
O == "owner"
Threads == Senders \cup {O}
Init == /\ queue = <<>> /\ owner = "none" /\ batch = <<>> /\ got = <<>> /\ ups = 0 /\ echoed = 0
        /\ pc = [t \in Threads |-> "idle"] /\ sent = [t \in Senders |-> 0]
Go(t, s) == pc' = [pc EXCEPT ![t] = s]
Lock(t) == /\ pc[t] = "idle" /\ owner = "none" /\ t \in Senders /\ sent[t] < PerSender
           /\ owner' = t /\ Go(t, "in") /\ UNCHANGED <<queue, sent, batch, got, ups, echoed>>
Append1(t) == /\ pc[t] = "in" /\ t \in Senders
              /\ queue' = Append(queue, <<t, sent[t] + 1>>) /\ sent' = [sent EXCEPT ![t] = @ + 1]
              /\ Go(t, "out") /\ UNCHANGED <<owner, batch, got, ups, echoed>>
Unlock(t) == pc[t] = "out" /\ owner' = "none" /\ Go(t, IF t = O THEN "handle" ELSE "idle") /\ UNCHANGED <<queue, sent, batch, got, ups, echoed>>
Begin == pc[O] = "idle" /\ ups < Updates /\ owner = "none" /\ owner' = O /\ Go(O, "take") /\ UNCHANGED <<queue, sent, batch, got, ups, echoed>>
Take == pc[O] = "take" /\ batch' = queue /\ queue' = <<>> /\ Go(O, "out") /\ UNCHANGED <<owner, sent, got, ups, echoed>>
Handle == /\ pc[O] = "handle" /\ batch # <<>> /\ got' = Append(got, Head(batch)) /\ batch' = Tail(batch)
          /\ Go(O, IF echoed < Echo THEN "echo" ELSE "handle") /\ UNCHANGED <<queue, owner, sent, ups, echoed>>
EchoSend == /\ pc[O] = "echo" /\ owner = "none"               \* the mutex must be free for the owner to send
            /\ queue' = Append(queue, <<O, echoed + 1>>) /\ echoed' = echoed + 1 /\ Go(O, "handle")
            /\ UNCHANGED <<owner, sent, batch, got, ups>>
Done == pc[O] = "handle" /\ batch = <<>> /\ ups' = ups + 1 /\ Go(O, "idle") /\ UNCHANGED <<queue, owner, sent, batch, got, echoed>>
Next == (\E t \in Threads : Lock(t) \/ Append1(t) \/ Unlock(t)) \/ Begin \/ Take \/ Handle \/ EchoSend \/ Done
Spec == Init /\ [][Next]_vars
All == got \o batch \o queue
Nth(t) == SelectSeq(All, LAMBDA m : m[1] = t)
(* every message sent is exactly once somewhere, each sender's in order *)
Conserved == /\ \A t \in Senders : Nth(t) = [i \in 1..sent[t] |-> <<t, i>>]
             /\ Nth(O) = [i \in 1..echoed |-> <<O, i>>]
             /\ Len(All) = Cardinality({All[i] : i \in DOMAIN All})
=============================================================================
