------------------------------ MODULE PolyMesh ------------------------------
(* The abstract mesh of polytope and what makes it a valid 2D mesh.         *)
(*                                                                          *)
(* A mesh is a record                                                       *)
(*   nodes      sequence of <<x, y>>, integers at some scale                *)
(*   faces      sequence of <<n1, n2>>                                      *)
(*   cells      sequence of sequences of oriented faces: f >= 0 the face f  *)
(*              as stored, f < 0 the face ~f = -f-1 walked backwards        *)
(*   faceCells  sequence of sequences of signed cells                       *)
(*   bnodes, bfaces  the boundary elements                                  *)
(* All indices inside the record are 0-based, as in the implementation.     *)
EXTENDS Integers, Sequences, FiniteSets

Id(k)  == IF k < 0 THEN -k - 1 ELSE k
Inv(k) == -k - 1
Rng(s) == {s[i] : i \in DOMAIN s}
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

NNodes(m) == Len(m.nodes)
NFaces(m) == Len(m.faces)
NCells(m) == Len(m.cells)

Face(m, f) == m.faces[f + 1]
From(m, k) == IF k < 0 THEN Face(m, -k - 1)[2] ELSE Face(m, k)[1]
To(m, k)   == IF k < 0 THEN Face(m, -k - 1)[1] ELSE Face(m, k)[2]
Node(m, n) == m.nodes[n + 1]

\* The nodes of cell c (1-based position), in order around it.
CellLoop(m, c) == [j \in 1..Len(m.cells[c]) |-> From(m, m.cells[c][j])]
CellPoly(m, c) == [j \in 1..Len(m.cells[c]) |-> Node(m, From(m, m.cells[c][j]))]

(* ---- topology ---------------------------------------------------------- *)

IndicesInRange(m) ==
  /\ \A f \in 1..NFaces(m) : Len(m.faces[f]) = 2 /\ \A k \in 1..2 : m.faces[f][k] \in 0..(NNodes(m) - 1)
  /\ \A c \in 1..NCells(m) : \A j \in 1..Len(m.cells[c]) : Id(m.cells[c][j]) \in 0..(NFaces(m) - 1)
  /\ Len(m.faceCells) = NFaces(m)
  /\ \A f \in 1..NFaces(m) : \A j \in 1..Len(m.faceCells[f]) : Id(m.faceCells[f][j]) \in 0..(NCells(m) - 1)
  /\ \A i \in 1..Len(m.bnodes) : m.bnodes[i] \in 0..(NNodes(m) - 1)
  /\ \A i \in 1..Len(m.bfaces) : m.bfaces[i] \in 0..(NFaces(m) - 1)

\* Every cell is one closed walk around at least three distinct nodes.
CellClosed(m, c) ==
  LET s == m.cells[c] n == Len(s) L == CellLoop(m, c) IN
  /\ n >= 3
  /\ \A j \in 1..n : To(m, s[j]) = From(m, s[(j % n) + 1])
  /\ Cardinality(Rng(L)) = n
CellsClosed(m) == \A c \in 1..NCells(m) : CellClosed(m, c)

\* cells -> faces and faces -> cells say the same thing, with the same sign.
\* faceCells[f] holds i when cell i walks f forwards and ~i when backwards.
\* All uses at once, as a set of <<face, signed cell>> pairs.
AllUses(m) == UNION {{<<Id(m.cells[c][j]), IF m.cells[c][j] < 0 THEN Inv(c - 1) ELSE c - 1>> : j \in 1..Len(m.cells[c])}
                        : c \in 1..NCells(m)}
AllFaceCells(m) == UNION {{<<f - 1, m.faceCells[f][j]>> : j \in 1..Len(m.faceCells[f])} : f \in 1..NFaces(m)}
FaceCellsConsistent(m) ==
  /\ AllUses(m) = AllFaceCells(m)
  /\ \A f \in 1..NFaces(m) : Cardinality(Rng(m.faceCells[f])) = Len(m.faceCells[f])

\* One or two cells per face; two cells walk it in opposite directions.
FacesShared(m) ==
  \A f \in 1..NFaces(m) :
    LET s == m.faceCells[f] IN
    /\ Len(s) \in {1, 2}
    /\ Len(s) = 2 => /\ Id(s[1]) # Id(s[2])
                     /\ (s[1] < 0) # (s[2] < 0)

\* No face is degenerate, no two faces join the same nodes, no node is unused.
FacesDistinct(m) ==
  /\ \A f \in 1..NFaces(m) : m.faces[f][1] # m.faces[f][2]
  /\ Cardinality({{m.faces[f][1], m.faces[f][2]} : f \in 1..NFaces(m)}) = NFaces(m)
NodesUsed(m) ==
  UNION {{m.faces[f][1], m.faces[f][2]} : f \in 1..NFaces(m)} = 0..(NNodes(m) - 1)
NodesDistinct(m) == Cardinality(Rng(m.nodes)) = NNodes(m)

(* ---- boundary ---------------------------------------------------------- *)

BoundaryFaceSet(m) == {f \in 0..(NFaces(m) - 1) : Len(m.faceCells[f + 1]) = 1}
BoundaryNodeSet(m) == UNION {Rng(Face(m, f)) : f \in BoundaryFaceSet(m)}
BoundaryFacesExact(m) == /\ Rng(m.bfaces) = BoundaryFaceSet(m)
                         /\ Len(m.bfaces) = Cardinality(BoundaryFaceSet(m))
BoundaryNodesExact(m) == /\ Rng(m.bnodes) = BoundaryNodeSet(m)
                         /\ Len(m.bnodes) = Cardinality(BoundaryNodeSet(m))
\* The boundary is a union of closed loops.
BoundaryLoops(m) ==
  LET B == BoundaryFaceSet(m) IN
  \A n \in BoundaryNodeSet(m) :
     Cardinality({f \in B : n \in {Face(m, f)[1], Face(m, f)[2]}}) % 2 = 0

\* V - E + C = parts - holes for a mesh of `parts` pieces with `holes` holes.
Euler(m) == NNodes(m) - NFaces(m) + NCells(m)

Topology(m) == /\ IndicesInRange(m) /\ CellsClosed(m) /\ FaceCellsConsistent(m)
               /\ FacesShared(m) /\ FacesDistinct(m) /\ NodesUsed(m)
Boundary(m) == BoundaryFacesExact(m) /\ BoundaryNodesExact(m) /\ BoundaryLoops(m)
=============================================================================
