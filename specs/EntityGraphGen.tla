--------------------------- MODULE EntityGraphGen ---------------------------
(* Every edit history of Depth steps over a graph that begins with Nodes0     *)
(* connecting nodes and one non-connecting one. Commands name the k-th live   *)
(* node or edge in order of insertion: <<code, a, b>>.                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils, CSV
CONSTANTS Depth, Nodes0
VARIABLES ed,      \* sequence of <<a, b>> node numbers (number in the order of insertion)
          nd,      \* sequence of live node numbers
          cnt, hist
vars == <<ed, nd, cnt, hist>>
Init == ed = <<>> /\ nd = [i \in 1..(Nodes0 + 1) |-> i] /\ cnt = Nodes0 + 1 /\ hist = <<>>
Cmd(c, a, b) == hist' = Append(hist, <<c, a, b>>)
Del(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Touch(n) == {k \in DOMAIN ed : ed[k][1] = n \/ ed[k][2] = n}
AddEdge(i, j) == ed' = Append(ed, <<nd[i], nd[j]>>) /\ UNCHANGED <<nd, cnt>> /\ Cmd(3, i - 1, j - 1)
RemEdge(k) == ed' = Del(ed, k) /\ UNCHANGED <<nd, cnt>> /\ Cmd(4, k - 1, 0)
All(c, i) == /\ Touch(nd[i]) # {}
             /\ ed' = SelectSeq(ed, LAMBDA e : e[1] # nd[i] /\ e[2] # nd[i])
             /\ UNCHANGED <<nd, cnt>> /\ Cmd(c, i - 1, 0)
RemNode(i) == Touch(nd[i]) = {} /\ nd' = Del(nd, i) /\ UNCHANGED <<ed, cnt>> /\ Cmd(2, i - 1, 0)
AddNode(c) == nd' = Append(nd, cnt + 1) /\ cnt' = cnt + 1 /\ UNCHANGED ed /\ Cmd(1, c, 0)
Toggle(i) == UNCHANGED <<ed, nd, cnt>> /\ Cmd(6, i - 1, 0)
Clr == ed' = <<>> /\ nd' = <<>> /\ UNCHANGED cnt /\ Cmd(7, 0, 0)
Pairs == {<<1, 2>>, <<2, 1>>, <<1, 1>>, <<2, 3>>, <<1, 3>>}
Next == /\ Len(hist) < Depth
        /\ \/ \E p \in Pairs : p[1] <= Len(nd) /\ p[2] <= Len(nd) /\ AddEdge(p[1], p[2])
           \/ \E k \in DOMAIN ed : RemEdge(k)
           \/ \E i \in {1, 2} : i <= Len(nd) /\ (All(5, i) \/ All(8, i) \/ RemNode(i))
           \/ (hist # <<>> /\ Len(nd) < Nodes0 + 1 /\ AddNode(0))
           \/ (ed # <<>> /\ Len(nd) >= 2 /\ Toggle(2))
           \/ (ed # <<>> /\ Clr)
        /\ (Len(hist') = Depth => CSVWrite("%1$s", <<ToString(hist')>>, IOEnv.GEN_FILE))
Spec == Init /\ [][Next]_vars
=============================================================================
