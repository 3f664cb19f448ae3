----------------------------- MODULE MeshEditModel -----------------------------
(* The design of the mesh editors, explored from meshes that the library made:  *)
(* any history of deletions and collapses of the edges that may be collapsed.   *)
(* `left` names the original cell each cell is; histories of deletions are      *)
(* emitted for replay on the library.                                           *)
EXTENDS MeshEdit, Json, IOUtils, TLC
CONSTANTS MaxDeletes, MaxCollapses, EmitHistories
Bases == ndJsonDeserialize(IOEnv.BASES)
VARIABLES base, m, left, hist, deletes, collapses
vars == <<base, m, left, hist, deletes, collapses>>
Init == /\ base \in 1..Len(Bases)
        /\ m = Bases[base]
        /\ left = [i \in DOMAIN Bases[base].cells |-> i - 1]
        /\ hist = <<>> /\ deletes = 0 /\ collapses = 0
Delete(D, how) ==
  /\ deletes < MaxDeletes
  /\ m' = DeleteCells(m, D)
  /\ left' = LET O == Ordered(KeptCells(m, D)) IN [i \in DOMAIN O |-> left[O[i] + 1]]
  /\ hist' = Append(hist, [how |-> how, cells |-> Ordered(D)])
  /\ deletes' = deletes + 1
  /\ UNCHANGED <<base, collapses>>
CollapseEdge(f, keep) ==
  /\ collapses < MaxCollapses
  /\ ~EmitHistories
  /\ Collapsible(m, f)
  \* a node on the border stays on it
  /\ LET other == IF Face(m, f)[1] = keep THEN Face(m, f)[2] ELSE Face(m, f)[1] IN
     other \in BoundaryNodeSet(m) => keep \in BoundaryNodeSet(m)
  /\ m' = Collapse(m, f, keep)
  /\ collapses' = collapses + 1
  /\ UNCHANGED <<base, left, hist, deletes>>
Next == \/ \E D \in (SUBSET (0..(NCells(m) - 1))) \ {{}, 0..(NCells(m) - 1)} :
             \E how \in (IF EmitHistories THEN {"mask", "list"} ELSE {"mask"}) : Delete(D, how)
        \/ \E f \in 0..(NFaces(m) - 1) : \E keep \in Rng(Face(m, f)) : CollapseEdge(f, keep)

Valid == /\ IndicesInRange([nodes |-> m.nodes, faces |-> m.faces, cells |-> m.cells, faceCells |-> m.faceCells, bnodes |-> <<>>, bfaces |-> <<>>])
         /\ CellsClosed(m) /\ FaceCellsConsistent(m) /\ FacesShared(m) /\ NodesUsed(m) /\ BoundaryLoops(m)
\* Deleting in two goes is deleting at once.
Composes == collapses = 0 =>
  LET D == {c \in 0..(Len(Bases[base].cells) - 1) : \A i \in DOMAIN left : left[i] # c}
      once == DeleteCells(Bases[base], D) IN SameCells(m, once) /\ SameFaceCells(m, once) /\ SameSharing(m, once)
\* Every kept cell has the shape it had.
Shapes == collapses = 0 => \A i \in DOMAIN left : CellPoly(m, i) = CellPoly(Bases[base], left[i] + 1)
OneCellEach == Len(m.cells) = Len(left) /\ \A i, j \in DOMAIN left : i < j => left[i] < left[j]
Emit == (EmitHistories /\ deletes >= 1) => PrintT("HIST " \o ToJson([base |-> base, hist |-> hist]))
================================================================================
