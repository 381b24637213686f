------------------------------- MODULE Sleep -------------------------------
(* Sleeping islands (C33). An island falls asleep only after all of its       *)
(* members have been calm at every update for longer than the required time;  *)
(* it sleeps and wakes as a whole, and wakes whenever it changes.             *)
EXTENDS Islands
Time == 2000                          \* required time at rest, milliseconds
VARIABLES mv, ns,                     \* bodies moving faster than a threshold; bodies with sleeping disabled
          asleep,                     \* dynamic bodies that sleep
          since,                      \* body -> <<time of the update before, time of the update>> since when it is calm
          quiet,                      \* body -> the same for its whole island, unchanged and awake
          sig,                        \* dynamic body -> <<members, edges>> of its island at the last update
          touched,                    \* bodies at which something changed since then
          now                         \* time of the last update
svars == <<mv, ns, asleep, since, quiet, sig, touched, now>>
SInit == mv = {} /\ ns = {} /\ asleep = {} /\ since = <<>> /\ quiet = <<>> /\ sig = <<>> /\ touched = {} /\ now = 0
Isle(b) == UNION {sig[x][1] : x \in {x \in DOMAIN sig : b \in sig[x][1]}}   \* members of the islands b is in
Nb(a) == UNION {Ends(c) : c \in {c \in DOMAIN edges : a \in Ends(c)}}
Keep(f, S) == Restrict(f, DOMAIN f \cap S)

SNew(a, k, n) == New(a, k) /\ ns' = (IF n THEN ns \cup {a} ELSE ns) /\ touched' = touched \cup {a}
                 /\ UNCHANGED <<mv, asleep, since, quiet, sig, now>>
SDel(a) == /\ Del(a) /\ touched' = (touched \cup Nb(a)) \ {a} /\ mv' = mv \ {a} /\ ns' = ns \ {a} /\ asleep' = asleep \ {a}
           /\ since' = Keep(since, DOMAIN kind') /\ quiet' = Keep(quiet, DOMAIN kind')
           /\ UNCHANGED <<sig, now>>
SLink(c, a, b, ct) == Link(c, a, b, ct) /\ touched' = touched \cup {a, b} /\ UNCHANGED <<mv, ns, asleep, since, quiet, sig, now>>
SUnlink(c) == Unlink(c) /\ touched' = touched \cup Ends(c) /\ UNCHANGED <<mv, ns, asleep, since, quiet, sig, now>>
SKind(a, k) == /\ Kind(a, k) /\ touched' = touched \cup Nb(a) \cup {a} /\ mv' = (IF k = "s" THEN mv \ {a} ELSE mv)
               /\ UNCHANGED <<ns, asleep, since, quiet, sig, now>>
Vel(a, m) == a \in DOMAIN kind /\ mv' = (IF m THEN mv \cup {a} ELSE mv \ {a}) /\ UNCHANGED <<ivars, ns, asleep, since, quiet, sig, touched, now>>
NoSleep(a, on) == a \in DOMAIN kind /\ ns' = (IF on THEN ns \cup {a} ELSE ns \ {a}) /\ UNCHANGED <<ivars, mv, asleep, since, quiet, sig, touched, now>>
Wake(a) == asleep' = asleep \ Isle(a) /\ UNCHANGED <<ivars, mv, ns, since, quiet, sig, touched, now>>
Put(a) == /\ a \in Dyn
          /\ asleep' = asleep \cup (Isle(a) \cap Dyn) /\ mv' = mv \ (Isle(a) \cap Dyn)
          /\ quiet' = Restrict(quiet, DOMAIN quiet \ Isle(a))
          /\ UNCHANGED <<ivars, ns, since, sig, touched, now>>

Calm(b) == b \notin mv /\ b \notin ns
Differs(C) == LET M == Members(C) IN \E b \in C : b \notin DOMAIN sig \/ sig[b] # <<M, EdgesOf(C)>>
Changed(C) == touched \cap Members(C) # {} \/ Differs(C)      \* something happened, perhaps without effect
Was(C) == C \subseteq asleep
Longer(s, t, d) == now - s[1] >= d \/ t - s[2] >= d
Surely(s, t, d) == now - s[1] >= d /\ t - s[2] >= d
Since(t) == [b \in {b \in DOMAIN kind : Calm(b)} |-> IF b \in DOMAIN since THEN since[b] ELSE <<now, t>>]
(* S: the components asleep after the update at time t *)
Update(t, S) ==
  LET comps == Components
      sn == Since(t)
      Fine(C) == \A b \in Members(C) : b \in DOMAIN sn
      steady == {C \in comps : ~Changed(C) /\ Fine(C) /\ C \cap asleep = {}}
      qt == [b \in UNION steady |-> IF b \in DOMAIN quiet THEN quiet[b] ELSE <<now, t>>]
  IN /\ \A C \in comps :
          /\ (C \in S /\ ~Was(C)) => Fine(C) /\ \A b \in Members(C) : Longer(sn[b], t, Time)
          /\ (Differs(C) /\ C \cap asleep # {}) => C \notin S
          /\ (~Changed(C) /\ Was(C)) => C \in S
          /\ (C \in steady /\ \A b \in C : Surely(qt[b], t, Time + 2)) => C \in S
     /\ asleep' = UNION S
     /\ mv' = mv \ UNION {C \in S : ~Was(C)}
     /\ since' = sn /\ quiet' = Restrict(qt, UNION (steady \ S))
     /\ sig' = [b \in Dyn |-> LET C == Component(b) IN <<Members(C), EdgesOf(C)>>]
     /\ touched' = {} /\ now' = t
     /\ UNCHANGED <<ivars, ns>>
=============================================================================
