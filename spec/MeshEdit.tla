------------------------------- MODULE MeshEdit -------------------------------
(* Editing a mesh: what deleting a set of cells and collapsing an edge do.     *)
EXTENDS PolyMesh

(* ---- deleting cells ----------------------------------------------------- *)

\* The cells of the set D (0-based) are deleted.
FacesOf(m, c) == {Id(m.cells[c + 1][j]) : j \in DOMAIN m.cells[c + 1]}
KeptCells(m, D) == (0..(NCells(m) - 1)) \ D
KeptFaces(m, D) == UNION {FacesOf(m, c) : c \in KeptCells(m, D)}
KeptNodes(m, D) == UNION {Rng(Face(m, f)) : f \in KeptFaces(m, D)}      \* in 2D and in 3D

\* The members of K in increasing order, and the position of each among them.
RECURSIVE Ordered(_)
Ordered(K) == IF K = {} THEN <<>>
              ELSE LET x == CHOOSE x \in K : \A y \in K : x <= y IN <<x>> \o Ordered(K \ {x})
Rank(K) == [x \in K |-> Cardinality({y \in K : y < x})]
Signed(k, R) == IF k < 0 THEN Inv(R[Id(k)]) ELSE R[k]
RECURSIVE Filter(_, _)
Filter(s, K) == IF s = <<>> THEN <<>>
                ELSE (IF Id(Head(s)) \in K THEN <<Head(s)>> ELSE <<>>) \o Filter(Tail(s), K)
Renumber(s, R) == [i \in DOMAIN s |-> Signed(s[i], R)]

DeleteCells(m, D) ==
  LET KC == KeptCells(m, D) KF == KeptFaces(m, D) KN == KeptNodes(m, D)
      OC == Ordered(KC) OF == Ordered(KF) ON == Ordered(KN)
      RC == Rank(KC) RF == Rank(KF) RN == Rank(KN) IN
  [nodes     |-> [i \in DOMAIN ON |-> m.nodes[ON[i] + 1]],
   faces     |-> [i \in DOMAIN OF |-> Renumber(m.faces[OF[i] + 1], RN)],
   cells     |-> [i \in DOMAIN OC |-> Renumber(m.cells[OC[i] + 1], RF)],
   faceCells |-> [i \in DOMAIN OF |-> Renumber(Filter(m.faceCells[OF[i] + 1], KC), RC)],
   neighbors |-> m.neighbors,
   sharedNodes |-> [i \in DOMAIN m.sharedNodes |-> Renumber(Filter(m.sharedNodes[i], KN), RN)],
   sharedFaces |-> [i \in DOMAIN m.sharedFaces |-> Renumber(Filter(m.sharedFaces[i], KF), RF)]]

\* What every editor must leave behind.
SameCells(a, b) == /\ a.nodes = b.nodes /\ a.faces = b.faces /\ a.cells = b.cells
SameFaceCells(a, b) == /\ Len(a.faceCells) = Len(b.faceCells)
                       /\ \A f \in DOMAIN a.faceCells : /\ Rng(a.faceCells[f]) = Rng(b.faceCells[f])
                                                        /\ Len(a.faceCells[f]) = Len(b.faceCells[f])
SameSharing(a, b) == a.neighbors = b.neighbors /\ a.sharedNodes = b.sharedNodes /\ a.sharedFaces = b.sharedFaces

(* ---- collapsing edges ---------------------------------------------------- *)

CellsAtFace(m, f) == {Id(k) : k \in Rng(m.faceCells[f + 1])}
OnBorder(m, f) == Len(m.faceCells[f + 1]) = 1
\* The face f may disappear without spoiling a cell or pinching the border.
Collapsible(m, f) ==
  /\ \A c \in CellsAtFace(m, f) : Len(m.cells[c + 1]) > 3
  /\ \/ OnBorder(m, f)
     \/ Face(m, f)[1] \notin BoundaryNodeSet(m)
     \/ Face(m, f)[2] \notin BoundaryNodeSet(m)

\* Collapse face f onto its end node `keep`; the other end disappears.
RECURSIVE Without(_, _)
Without(s, f) == IF s = <<>> THEN <<>> ELSE (IF Id(Head(s)) = f THEN <<>> ELSE <<Head(s)>>) \o Without(Tail(s), f)
Collapse(m, f, keep) ==
  LET gone == IF Face(m, f)[1] = keep THEN Face(m, f)[2] ELSE Face(m, f)[1]
      KN == (0..(NNodes(m) - 1)) \ {gone} KF == (0..(NFaces(m) - 1)) \ {f}
      OF == Ordered(KF) ON == Ordered(KN) RN == Rank(KN) RF == Rank(KF)
      To1(n) == RN[IF n = gone THEN keep ELSE n] IN
  [nodes     |-> [i \in DOMAIN ON |-> m.nodes[ON[i] + 1]],
   faces     |-> [i \in DOMAIN OF |-> [k \in 1..2 |-> To1(m.faces[OF[i] + 1][k])]],
   cells     |-> [c \in DOMAIN m.cells |-> Renumber(Without(m.cells[c], f), RF)],
   faceCells |-> [i \in DOMAIN OF |-> m.faceCells[OF[i] + 1]],
   neighbors |-> m.neighbors,
   sharedNodes |-> [i \in DOMAIN m.sharedNodes |-> Renumber(Filter(m.sharedNodes[i], KN), RN)],
   sharedFaces |-> [i \in DOMAIN m.sharedFaces |-> Renumber(Filter(m.sharedFaces[i], KF), RF)]]
===============================================================================
