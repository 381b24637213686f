------------------------------ MODULE PagedMesh ------------------------------
(* A mesh split into pages that are loaded when an area is visited (C15).     *)
(* pg: page -> [nv, tris]; a triangle is a record of integers whose first     *)
(* nine are its vertices (in eighths). ld, lg: pages loaded and pages being   *)
(* loaded. lo, hi: bounds of the number of the last visit to each page.       *)
EXTENDS Geo
VARIABLES pg, lim, thick, ld, lg, lo, hi, n
pvars == <<pg, lim, thick, ld, lg, lo, hi, n>>
Pages == DOMAIN pg
V(t, k) == <<t[3 * k - 2], t[3 * k - 1], t[3 * k]>>
TriBox(t) == Union({<<V(t, k), V(t, k)>> : k \in 1..3})
RECURSIVE CachedIn(_, _)
CachedIn(g, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN g[x].nv + CachedIn(g, S \ {x})
Cached(S) == CachedIn(pg, S)
Grow(b, d) == <<[i \in 1..3 |-> b[1][i] - d], [i \in 1..3 |-> b[2][i] + d]>>
\* q is <<"box", lo, hi>> or <<"ray", p, p'>>
Must(q, b) == IF q[1] = "box" THEN BoxOverlap(<<q[2], q[3]>>, b) ELSE SegBox(q[2], q[3], Grow(b, -1))
May(q, b) == IF q[1] = "box" THEN BoxOverlap(<<q[2], q[3]>>, b) ELSE SegBox(q[2], q[3], Grow(b, 1))
PBox(p) == pg[p].box
PMust(q, p) == Must(q, PBox(p))
PMay(q, p) == May(q, PBox(p))
TMust(q, p) == {k \in DOMAIN pg[p].tris : Must(q, pg[p].tb[k])}
TMay(q, p) == {k \in DOMAIN pg[p].tris : May(q, pg[p].tb[k])}

\* One visit: steps <<1,p>> requested, <<2,p>> discarded, <<3,p>> loaded, in order.
NextReq(steps, k) == LET R == {j \in DOMAIN steps : j > k /\ steps[j][1] = 1} IN IF R = {} THEN 0 ELSE steps[SetMin(R)][2]
Low(p) == lo[p]
High(q, p) == IF PMay(q, p) THEN n + 1 ELSE hi[p]
Step(q, steps, s, k) ==
  LET c == steps[k][1]
      p == steps[k][2]
  IN CASE c = 1 -> [s EXCEPT !.lg = @ \cup {p},
                             !.ok = @ /\ p \notin s.ld /\ p \notin s.lg /\ PMay(q, p) /\ Cached(s.ld) + pg[p].nv <= lim]
       [] c = 2 -> [s EXCEPT !.ld = @ \ {p},
                             !.ok = /\ @ /\ p \in s.ld
                                    /\ NextReq(steps, k) # 0 /\ Cached(s.ld) + pg[NextReq(steps, k)].nv > lim
                                    /\ \A x \in s.ld : ~(High(q, x) < Low(p))]       \* least recently visited
       [] OTHER -> [s EXCEPT !.ld = @ \cup {p}, !.lg = @ \ {p}, !.ok = @ /\ p \in s.lg]
After(q, steps) == LET f[k \in 0..Len(steps)] == IF k = 0 THEN [ld |-> ld, lg |-> lg, ok |-> TRUE] ELSE Step(q, steps, f[k - 1], k)
                   IN f[Len(steps)]
Of(steps, c) == {steps[k][2] : k \in {j \in DOMAIN steps : steps[j][1] = c}}
\* seen: set of <<page, triangle>> (or <<page, 0>> when whole pages are visited)
Visit(q, steps, seen, whole) ==
  LET s == After(q, steps)
      req == Of(steps, 1)
      ev == Of(steps, 2)
      arr == Of(steps, 3)
      mine(p) == {x[2] : x \in {y \in seen : y[1] = p}}
      full(p) == IF whole THEN (PMust(q, p) => mine(p) = {0}) /\ (mine(p) = {0} => PMay(q, p))
                 ELSE TMust(q, p) \subseteq mine(p) /\ mine(p) \subseteq TMay(q, p)
  IN /\ s.ok
     /\ \A p \in Pages : PMust(q, p) => p \in ld \cup lg \cup req          \* absent pages are requested
     /\ \A p \in Pages :
          IF p \in arr \/ (p \in ld /\ p \notin ev) THEN full(p)
          ELSE IF p \in ld /\ p \in ev THEN full(p) \/ (mine(p) = {} /\ (p \in req \/ ~PMust(q, p)))
          ELSE mine(p) = {}
     /\ ld' = s.ld /\ lg' = s.lg /\ n' = n + 1
     /\ lo' = [p \in Pages |-> IF PMust(q, p) /\ (p \in arr \/ (p \in ld /\ p \notin ev)) THEN n + 1 ELSE lo[p]]
     /\ hi' = [p \in Pages |-> IF PMay(q, p) /\ p \in arr \cup ld THEN n + 1 ELSE hi[p]]
     /\ UNCHANGED <<pg, lim, thick>>
\* Only what is loaded is looked at; nothing is requested.
Look(q, seen) ==
  /\ \A x \in seen : x[1] \in ld
  /\ \A p \in ld : LET mine == {x[2] : x \in {y \in seen : y[1] = p}}
                   IN TMust(q, p) \subseteq mine /\ mine \subseteq TMay(q, p)
  /\ UNCHANGED pvars
Arrive(p) == p \in lg /\ ld' = ld \cup {p} /\ lg' = lg \ {p} /\ UNCHANGED <<pg, lim, thick, lo, hi, n>>
Clear == ld' = {} /\ UNCHANGED <<pg, lim, thick, lg, lo, hi, n>>
SetThick(t) == thick' = t /\ UNCHANGED <<pg, lim, ld, lg, lo, hi, n>>
SetLimit(k) == lim' = k /\ UNCHANGED <<pg, thick, ld, lg, lo, hi, n>>
\* The attributes at the point of triangle k of page i with quarters bc: linear between the vertices. Where
\* another triangle holds the same point either may be meant.
Quarter(t, bc) == [d \in 1..3 |-> bc[1] * V(t, 1)[d] + bc[2] * V(t, 2)[d] + bc[3] * V(t, 3)[d]]
Four(v) == <<4 * v[1], 4 * v[2], 4 * v[3]>>
Holds(t, P) == LET a == Four(V(t, 1)) b == Four(V(t, 2)) c == Four(V(t, 3))
                   nn == Cross3(Sub(V(t, 2), V(t, 1)), Sub(V(t, 3), V(t, 1)))
               IN /\ Dot3(Sub(P, a), nn) = 0
                  /\ Dot3(Cross3(Sub(b, a), Sub(P, a)), nn) >= 0 /\ Dot3(Cross3(Sub(c, b), Sub(P, b)), nn) >= 0 /\ Dot3(Cross3(Sub(a, c), Sub(P, c)), nn) >= 0
Attr(t, i, j) == t[24 + 3 * (i - 1) + j]
PointAt(i, k, bc, f, r, m) ==
  LET t == pg[i].tris[k]
      P == Quarter(t, bc)
      mix(j) == (bc[1] * Attr(t, 1, j) + bc[2] * Attr(t, 2, j) + bc[3] * Attr(t, 3, j)) \div 4
  IN \/ \E q \in ld, x \in 1..4 : x \in DOMAIN pg[q].tris /\ <<q, x>> # <<i, k>> /\ Holds(pg[q].tris[x], P)
     \/ /\ Near(f, mix(1), 3) /\ Near(r, mix(2), 3)
        /\ Len(m) = 3 /\ \A x \in 1..3 : m[x][1] = Attr(t, x, 3) /\ Near(m[x][2], 250 * bc[x], 3)
=============================================================================
