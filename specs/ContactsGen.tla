----------------------------- MODULE ContactsGen -----------------------------
(* Lives of a contact: per step its friction (2 rolling, 4 spinning), whether   *)
(* it is soft then (1, for the whole life) and whether the solver ran and       *)
(* stored its impulses (8).                                                     *)
EXTENDS Contacts, Json, IOUtils, CSV
CONSTANT Depth
VARIABLES hist, kind
gvars == <<ang, imp, hist, kind>>
Bit(t, b) == (t \div b) % 2 = 1
GInit == ang = 0 /\ imp = Fresh /\ hist = <<>> /\ kind \in {0, 1, 2}
GNext == /\ Len(hist) < Depth
         /\ \E t \in IF kind > 0 THEN {8 * a + 4 * b + 2 * c + (kind - 1) : a \in IF Len(hist) = Depth - 1 THEN {0} ELSE {0, 1}, b, c \in {0, 1}} ELSE {0, 8} :
              /\ hist' = Append(hist, t)
              /\ imp' = IF Bit(t, 8) THEN StoreAt(imp, kind > 0 /\ Bit(t, 2), kind > 0 /\ Bit(t, 4), 10 * Len(hist) + 11) ELSE imp
         /\ UNCHANGED <<kind, ang>>
         /\ (Len(hist') = Depth => CSVWrite("%1$s", <<ToString(<<IF kind > 0 THEN 1 ELSE 0>> \o hist')>>, IOEnv.GEN_FILE))
GSpec == GInit /\ [][GNext]_gvars
(* A slot holds what the last store that had its row put there, and no two      *)
(* rows share what one store wrote.                                             *)
Last(b) == LET S == {i \in DOMAIN hist : Bit(hist[i], 8) /\ (b = 0 \/ Bit(hist[i], b))} IN IF S = {} THEN 0 ELSE CHOOSE m \in S : \A i \in S : i <= m
Block(x) == IF imp[x] = 0 THEN 0 ELSE (imp[x] - 1) \div 10
Faithful == /\ Block("n") = Last(0) /\ Block("f1") = Last(0) /\ Block("f2") = Last(0)
            /\ kind > 0 => Block("r1") = Last(2) /\ Block("r2") = Last(2) /\ Block("s") = Last(4)
            /\ kind = 0 => Block("r1") = 0 /\ Block("s") = 0
Distinct == \A x, y \in Slots : imp[x] # 0 /\ imp[x] = imp[y] => x = y
=============================================================================
