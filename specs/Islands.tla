------------------------------- MODULE Islands -------------------------------
(* Islands (C32): the connected components of the procedural (dynamic) bodies *)
(* under constraints and contacts; other bodies connect nothing but belong to *)
(* the islands of their neighbours.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES kind,                      \* living body -> "d" dynamic, "k" kinematic, "s" static
          edges                      \* living edge -> [a, b, ct]
ivars == <<kind, edges>>
IInit == kind = <<>> /\ edges = <<>>
Dyn == {b \in DOMAIN kind : kind[b] = "d"}
Ends(c) == {edges[c].a, edges[c].b}
Restrict(f, S) == [x \in S |-> f[x]]
New(a, k) == a \notin DOMAIN kind /\ kind' = kind @@ (a :> k) /\ UNCHANGED edges
Del(a) == /\ a \in DOMAIN kind
          /\ kind' = Restrict(kind, DOMAIN kind \ {a})
          /\ edges' = Restrict(edges, {c \in DOMAIN edges : a \notin Ends(c)})
Link(c, a, b, ct) == /\ c \notin DOMAIN edges /\ a # b /\ {a, b} \subseteq DOMAIN kind /\ {a, b} \cap Dyn # {}
                     /\ edges' = edges @@ (c :> [a |-> a, b |-> b, ct |-> ct]) /\ UNCHANGED kind
Unlink(c) == c \in DOMAIN edges /\ edges' = Restrict(edges, DOMAIN edges \ {c}) /\ UNCHANGED kind
(* contacts between two bodies that are not dynamic disappear; constraints between such may not exist *)
Dead(a, k) == IF k = "d" THEN {} ELSE {c \in DOMAIN edges : a \in Ends(c) /\ (Ends(c) \ {a}) \cap Dyn = {}}
Kind(a, k) == /\ a \in DOMAIN kind
              /\ \A c \in Dead(a, k) : edges[c].ct
              /\ kind' = [kind EXCEPT ![a] = k]
              /\ edges' = Restrict(edges, DOMAIN edges \ Dead(a, k))
RECURSIVE Grow(_, _)
Grow(S, D) == LET T == S \cup UNION {Ends(c) \cap D : c \in {c \in DOMAIN edges : Ends(c) \cap S # {}}}
              IN IF T = S THEN S ELSE Grow(T, D)
Component(b) == Grow({b}, Dyn)
Components == {Component(b) : b \in Dyn}
EdgesOf(C) == {c \in DOMAIN edges : Ends(c) \cap C # {}}
(* all members of the island of component C *)
Members(C) == C \cup UNION {Ends(c) : c \in EdgesOf(C)}
Partition == /\ UNION Components = Dyn
             /\ \A C, D \in Components : C # D => C \cap D = {} /\ EdgesOf(C) \cap EdgesOf(D) = {}
             /\ UNION {EdgesOf(C) : C \in Components} = DOMAIN edges
=============================================================================
