-------------------------- MODULE DynamicTreeTrace --------------------------
EXTENDS DynamicTree, TraceBase
(* after every step: every live leaf reads back as stored, and is a leaf *)
Reads == /\ Len(E.all) = Cardinality(DOMAIN leaves')
         /\ \A k \in DOMAIN E.all : LET r == E.all[k] IN
              r[1] \in DOMAIN leaves' /\ r[2] = leaves'[r[1]].ent /\ r[3] = leaves'[r[1]].box
TReset == IsEvent("reset") /\ leaves' = None
TC == IsEvent("c") /\ Create(E.id, E.ent, E.box, E.st) /\ Reads
TM == IsEvent("m") /\ Move(E.id, E.box, E.st, E.moved) /\ Reads
TD == IsEvent("d") /\ Destroy(E.id) /\ Reads
TX == IsEvent("x") /\ Clear /\ Reads
TQ == IsEvent("q") /\ UNCHANGED leaves /\ Answer(E.v, LAMBDA b : BoxOverlap(b, E.box))
TR == IsEvent("r") /\ UNCHANGED leaves /\ Answer(E.v, LAMBDA b : SegBox(E.p, E.q, b))
TraceSpec == leaves = None /\ l = 1 /\ [][TReset \/ TC \/ TM \/ TD \/ TX \/ TQ \/ TR]_<<leaves, l>>
=============================================================================
