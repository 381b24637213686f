---------------------------- MODULE StaticTreeTrace ----------------------------
EXTENDS StaticTree, TraceBase
VARIABLES boxes, leaves, nodes
vars == <<boxes, leaves, nodes>>
TReset == IsEvent("reset") /\ boxes' = <<>> /\ leaves' = <<>> /\ nodes' = <<>>
TBuild == /\ IsEvent("build") /\ boxes' = E.boxes /\ leaves' = E.leaves /\ nodes' = E.nodes
          /\ Partition(boxes', leaves') /\ WellFormed(boxes', leaves', nodes')
          /\ \A k \in DOMAIN leaves' : Len(leaves'[k]) <= E.max
          /\ E.root = Union({boxes'[i] : i \in DOMAIN boxes'}) /\ ~E.empty
TQuery == IsEvent("query") /\ UNCHANGED vars
          /\ QueryOk(boxes, leaves, nodes, E.v, LAMBDA b : BoxOverlap(b, <<E.lo, E.hi>>))
TRay == IsEvent("ray") /\ UNCHANGED vars
        /\ QueryOk(boxes, leaves, nodes, E.v, LAMBDA b : SegBox(E.p, E.q, b))
TClear == IsEvent("clear") /\ UNCHANGED vars /\ E.empty
TraceSpec == l = 1 /\ boxes = <<>> /\ leaves = <<>> /\ nodes = <<>>
             /\ [][TReset \/ TBuild \/ TQuery \/ TRay \/ TClear]_<<vars, l>>
=============================================================================
