--------------------------------- MODULE Objects ---------------------------------
(* Mesh and outline objects as records of parts, and what the operations on them *)
(* do.  An object owns its parts: an operation on one object changes no other.   *)
EXTENDS Integers, Sequences, FiniteSets

MeshParts == {"nodes", "cells", "faces", "bnodes", "bfaces", "faceCells", "hullf", "hullh", "neighbors", "sharedNodes", "sharedFaces"}
OutlineParts == {"facets", "holes", "points"}
Blank(parts) == [p \in parts |-> <<>>]
Start(Slots) == [mesh |-> [s \in Slots |-> Blank(MeshParts)], outline |-> [s \in Slots |-> Blank(OutlineParts)]]
\* A mesh is empty when it holds nothing; an outline when it bounds nothing.
MeshEmpty(m) == m = Blank(MeshParts)
OutlineEmpty(o) == o.facets = <<>> /\ o.holes = <<>>

MeshOps == {"Mn", "Mc", "Mf"}
OutlineOps == {"On", "Oc", "Of", "Oa", "Ok", "Ob", "Or"}
\* The parts of the result that an operation determines.  A box and a reduced
\* copy may number their points as they like: for them the operation says what
\* it made (o.made) and Right(st, o) says whether it may.
After(st, o) ==
  CASE o.op \in {"Mn", "Mc"} -> [st EXCEPT !.mesh[o.slot] = Blank(MeshParts)]
    [] o.op = "Mf" -> [st EXCEPT !.mesh[o.slot][o.part] = o.v]
    [] o.op \in {"On", "Oc"} -> [st EXCEPT !.outline[o.slot] = Blank(OutlineParts)]
    [] o.op = "Of" -> [st EXCEPT !.outline[o.slot][o.part] = o.v]
    [] o.op \in {"Oa", "Ok"} -> [st EXCEPT !.outline[o.slot] = st.outline[o.from]]
    [] o.op \in {"Ob", "Or"} -> [st EXCEPT !.outline[o.slot] = o.made]

Rng(s) == {s[i] : i \in DOMAIN s}
\* Facets (sequences of point numbers from 0) in terms of positions.
At(points, facet) == [i \in DOMAIN facet |-> points[facet[i] + 1]]
Placed(points, facets) == [i \in DOMAIN facets |-> At(points, facets[i])]
Used(o) == UNION {Rng(f) : f \in Rng(o.facets)} \cup UNION {UNION {Rng(f) : f \in Rng(h)} : h \in Rng(o.holes)}
WellFormed(o) == \A i \in Used(o) : i >= 0 /\ i < Len(o.points)
\* r is o with only the points that o uses, each of them once.
ReducedFrom(r, o) ==
  /\ WellFormed(r)
  /\ Placed(r.points, r.facets) = Placed(o.points, o.facets)
  /\ Len(r.holes) = Len(o.holes)
  /\ \A h \in DOMAIN o.holes : Placed(r.points, r.holes[h]) = Placed(o.points, o.holes[h])
  /\ Used(r) = 0..Len(r.points) - 1
  /\ Cardinality(Used(o)) = Len(r.points)
\* The sides of the rectangle, each directed with the inside on its left.
BoxSides(lo, hi) == LET a == lo b == <<hi[1], lo[2]>> c == hi d == <<lo[1], hi[2]>> IN {<<a, b>>, <<b, c>>, <<c, d>>, <<d, a>>}
IsBox2(r, lo, hi) ==
  /\ WellFormed(r) /\ Len(r.facets) = 4 /\ r.holes = <<>>
  /\ Rng(Placed(r.points, r.facets)) = BoxSides(lo, hi)
  /\ Used(r) = 0..Len(r.points) - 1 /\ Len(r.points) = 4
\* The six sides of the brick, counter-clockwise seen from outside.
Corner(lo, hi, b) == [k \in 1..3 |-> IF b[k] = 0 THEN lo[k] ELSE hi[k]]
Turn(f) == {[i \in DOMAIN f |-> f[((i + k - 1) % Len(f)) + 1]] : k \in 0..Len(f) - 1}
BrickSides(lo, hi) ==
  LET C(x, y, z) == Corner(lo, hi, <<x, y, z>>) IN
  { Turn(<<C(0,0,0), C(0,1,0), C(1,1,0), C(1,0,0)>>), Turn(<<C(0,0,1), C(1,0,1), C(1,1,1), C(0,1,1)>>),
    Turn(<<C(0,0,0), C(1,0,0), C(1,0,1), C(0,0,1)>>), Turn(<<C(0,1,0), C(0,1,1), C(1,1,1), C(1,1,0)>>),
    Turn(<<C(0,0,0), C(0,0,1), C(0,1,1), C(0,1,0)>>), Turn(<<C(1,0,0), C(1,1,0), C(1,1,1), C(1,0,1)>>) }
IsBox3(r, lo, hi) ==
  /\ WellFormed(r) /\ Len(r.facets) = 6 /\ r.holes = <<>>
  /\ {Turn(f) : f \in Rng(Placed(r.points, r.facets))} = BrickSides(lo, hi)
  /\ Used(r) = 0..Len(r.points) - 1 /\ Len(r.points) = 8
Right(st, o) ==
  CASE o.op = "Ob" -> IF Len(o.lo) = 2 THEN IsBox2(o.made, o.lo, o.hi) ELSE IsBox3(o.made, o.lo, o.hi)
    [] o.op = "Or" -> WellFormed(st.outline[o.from]) => ReducedFrom(o.made, st.outline[o.from])
    [] OTHER -> TRUE

---------------------------------------------------------------------------------
\* Views of a mesh: faces are sequences of nodes, cells sequences of signed faces.
Plain(x) == IF x < 0 THEN -x - 1 ELSE x
FacesOf(m, i) == {Plain(x) : x \in Rng(m.cells[i])}
NodesOfCell(m, i) == UNION {Rng(m.faces[f + 1]) : f \in FacesOf(m, i)}
CellsOfNode(m, n) == {i - 1 : i \in {j \in DOMAIN m.cells : n \in NodesOfCell(m, j)}}
CellsOfFace(m, f) == {i \in DOMAIN m.cells : f \in FacesOf(m, i)}
RimFaces(m) == {f \in 0..Len(m.faces) - 1 : Cardinality(CellsOfFace(m, f)) = 1}
RimNodes(m) == UNION {Rng(m.faces[f + 1]) : f \in RimFaces(m)}
\* The sides of a cell as seen from outside it.
Back(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Outward(m, x) == IF x < 0 THEN Back(m.faces[-x]) ELSE m.faces[x + 1]
SidesOf(m, i) == {Turn(At(m.nodes, Outward(m, x))) : x \in Rng(m.cells[i])}
Sides2Of(m, i) == {At(m.nodes, Outward(m, x)) : x \in Rng(m.cells[i])}
OutlineOfCell2(m, i, r) ==
  /\ WellFormed(r) /\ r.holes = <<>> /\ Len(r.facets) = Len(m.cells[i])
  /\ Rng(Placed(r.points, r.facets)) = Sides2Of(m, i)
  /\ Used(r) = 0..Len(r.points) - 1 /\ Len(r.points) = Cardinality(NodesOfCell(m, i))
OutlineOfCell3(m, i, r) ==
  /\ WellFormed(r) /\ r.holes = <<>> /\ Len(r.facets) = Len(m.cells[i])
  /\ {Turn(f) : f \in Rng(Placed(r.points, r.facets))} = SidesOf(m, i)
  /\ Used(r) = 0..Len(r.points) - 1 /\ Len(r.points) = Cardinality(NodesOfCell(m, i))
---------------------------------------------------------------------------------
\* v without the elements at the positions (from 0) in list, and where each went.
RECURSIVE Without(_, _, _)
Without(v, gone, i) == IF i > Len(v) THEN <<>>
                       ELSE (IF i - 1 \in gone THEN <<>> ELSE <<v[i]>>) \o Without(v, gone, i + 1)
Moved(v, gone) == [i \in DOMAIN v |-> IF i - 1 \in gone THEN -1 ELSE i - 1 - Cardinality({g \in gone : g < i - 1})]
---------------------------------------------------------------------------------
\* A closed surface: every side of a facet is met once, from the other side, by
\* another; in one piece and without handles.
Edges3(F) == [e \in UNION {{<<i, j>> : j \in DOMAIN F[i]} : i \in DOMAIN F} |->
                LET f == F[e[1]] IN <<f[e[2]], f[(e[2] % Len(f)) + 1]>>]
ClosedBall(F) ==
  LET E == Edges3(F) S == {E[k] : k \in DOMAIN E} IN
  /\ Cardinality(S) = Cardinality(DOMAIN E)
  /\ \A e \in S : <<e[2], e[1]>> \in S
  /\ 2 * Cardinality({e[1] : e \in S}) - Cardinality(S) + 2 * Len(F) = 4
==================================================================================
