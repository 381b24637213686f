--------------------------------- MODULE Obj ---------------------------------
(* Loading of mesh files.  A file is a sequence of lines: objects, vertices in *)
(* eighths (with or without colour), faces of 1-based indices into the whole   *)
(* file, and lines that mean nothing.  Parsing is a fold over the lines.       *)
EXTENDS Integers, Sequences, SequencesExt
Empty(name) == [name |-> name, v |-> <<>>, c |-> <<>>, i |-> <<>>, f |-> <<>>]
Start == [done |-> <<>>, cur |-> Empty(0), off |-> 0]
Close(s) == IF s.cur.v = <<>> THEN s
            ELSE [done |-> Append(s.done, s.cur), cur |-> Empty(0), off |-> s.off + Len(s.cur.v)]
Tail1(x) == SubSeq(x, 2, Len(x))
Line(s, x) ==
    CASE x[1] = "o" -> [Close(s) EXCEPT !.cur.name = x[2]]
      [] x[1] \in {"v", "vc"} ->
            [s EXCEPT !.cur.v = Append(@, <<x[2], x[3], x[4]>>),
                      !.cur.c = IF x[1] = "vc" THEN Append(@, <<x[5], x[6], x[7]>>) ELSE @]
      [] x[1] = "f" ->
            LET ids == Tail1(x) IN
            [s EXCEPT !.cur.f = @ \o <<Len(s.cur.i), Len(ids)>>,
                      !.cur.i = @ \o [k \in 1..Len(ids) |-> ids[k] - 1 - s.off]]
      [] OTHER -> s
Meshes(lines) == Close(FoldLeft(Line, Start, lines)).done
\* a polygon as a fan of triangles around its first vertex
Fan(ids) == FlattenSeq([k \in 1..Len(ids) - 2 |-> <<ids[1] - 1, ids[k + 1] - 1, ids[k + 2] - 1>>])
TriLine(s, x) ==
    CASE x[1] \in {"v", "vc"} ->
            [s EXCEPT !.v = Append(@, <<x[2], x[3], x[4]>>),
                      !.c = IF x[1] = "vc" THEN Append(@, <<x[5], x[6], x[7]>>) ELSE @]
      [] x[1] = "f" -> [s EXCEPT !.i = @ \o Fan(Tail1(x))]
      [] OTHER -> s
TriMesh(lines) == FoldLeft(TriLine, [v |-> <<>>, c |-> <<>>, i |-> <<>>], lines)
-----------------------------------------------------------------------------
\* scale, then rotate (matrix in 25ths), then translate; the result in 200ths
Placed(v, E) == LET w == <<v[1] * E.scale[1], v[2] * E.scale[2], v[3] * E.scale[3]>>
                IN [k \in 1..3 |-> 200 * E.pos[k] + E.rot[k][1] * w[1] + E.rot[k][2] * w[2] + E.rot[k][3] * w[3]]
Close3(a, b) == \A k \in 1..3 : a[k] - b[k] \in -1..1
SameVerts(got, want, E) == Len(got) = Len(want) /\ \A k \in 1..Len(want) : Close3(got[k], Placed(want[k], E))
SameMeshes(got, E) ==
    LET m == Meshes(E.lines) IN
    /\ Len(got) = Len(m)
    /\ \A k \in 1..Len(m) : /\ got[k].name = m[k].name
                            /\ SameVerts(got[k].v, m[k].v, E)
                            /\ got[k].c = m[k].c /\ got[k].i = m[k].i /\ got[k].f = m[k].f
SameTri(got, E, colours) ==
    LET t == TriMesh(E.lines) IN
    SameVerts(got.v, t.v, E) /\ got.i = t.i /\ (colours => got.c = t.c) /\ (~colours => got.c = <<>>)
Loaded(E) == /\ E.filehit /\ ~E.filemiss
             /\ SameMeshes(E.meshes, E) /\ SameMeshes(E.fmeshes, E)
             /\ SameTri(E.tri, E, TRUE) /\ SameTri(E.ftri, E, TRUE) /\ SameTri(E.nctri, E, FALSE)
\* polyhedrons: the same meshes, vertices given relative to the reported centre
Polyhedrons(E) ==
    LET m == Meshes(E.lines) IN
    /\ Len(E.polys) = Len(m)
    /\ \A k \in 1..Len(m) :
        /\ E.polys[k].i = m[k].i /\ E.polys[k].f = m[k].f
        /\ Len(E.polys[k].v) = Len(m[k].v)
        /\ \A j \in 1..Len(m[k].v) : Close3([d \in 1..3 |-> E.polys[k].v[j][d] + E.polys[k].c[d]], Placed(m[k].v[j], E))
    /\ E.compound = Len(m)
=============================================================================
