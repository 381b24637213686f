----------------------------- MODULE ReplicationMC -----------------------------
(* Convergence: with nothing in transit, everything observed (throughout) looks *)
(* at the destination as it does at the source, up to references to what the    *)
(* destination did not know at the time.                                        *)
EXTENDS Replication
CONSTANTS Ents, Depth
VARIABLES lost, n
vars == <<src, obs, active, q, dmap, dalive, dst, lost, n>>
Vals(k) == CASE k = "v" -> {<<1>>, <<2>>} [] k = "l" -> {<<r>> : r \in Ents \cup {0}} [] k = "s" -> {<<r, s>> : r, s \in Ents}
Kinds == {"v", "l", "s"}
Init == RInit /\ lost = {} /\ n = 0
Keep == UNCHANGED lost
Next == n < Depth /\ n' = n + 1 /\
        \/ \E e \in Ents : (Create(e) \/ Observe(e) \/ Unobserve(e) \/ Destroy(e)) /\ e \notin lost /\ Keep
        \/ \E e \in Ents, k \in Kinds : (\E v \in Vals(k) : Emplace(e, k, v) \/ Replace(e, k, v)) /\ Keep
        \/ \E e \in Ents, k \in Kinds : Remove(e, k) /\ Keep
        \/ \E e \in Ents : LocalDestroy(e) /\ lost' = lost \cup {e}
        \/ q # <<>> /\ Flush /\ Keep
        \/ q # <<>> /\ FlushRenamed /\ Keep
Spec == Init /\ [][Next]_vars
Sub(k, d, s) == CASE k = "v" -> d = s
                  [] k = "l" -> d = s \/ d = <<0>>
                  [] k = "s" -> \E m \in SUBSET DOMAIN s : d = [i \in 1..Cardinality(m) |-> s[CHOOSE j \in m : Cardinality({x \in m : x < j}) = i - 1]]
Converged == q = <<>> => \A e \in obs \ lost :
    /\ e \in dmap /\ e \in dalive
    /\ DOMAIN dst[e] = DOMAIN src[e]
    /\ \A k \in DOMAIN src[e] : Sub(k, dst[e][k], src[e][k])
\* nothing is left behind: an entity no longer observed is gone once everything was sent
Clean == q = <<>> => \A e \in dmap : e \in obs
=============================================================================
