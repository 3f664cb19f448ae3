------------------------------ MODULE DeleteTrace ------------------------------
(* Deletions recorded from the library: mesh i+1 is what deleting the cells of  *)
(* step i from mesh i gives.  Coordinates are digit strings: equality is exact. *)
EXTENDS MeshEdit, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, pc
vars == <<c, pc>>
Init == c \in 1..Len(Trace) /\ pc = 0
R == Trace[c]
Next == pc < Len(R.steps) /\ pc' = pc + 1 /\ UNCHANGED c
After == R.meshes[pc + 1]
Want == DeleteCells(R.meshes[pc], Rng(R.steps[pc]))
InvCells == pc > 0 => SameCells(After, Want)
InvFaceCells == pc > 0 => SameFaceCells(After, Want)
InvSharing == pc > 0 => SameSharing(After, Want)
InvBoundary == pc > 0 => BoundaryFacesExact(After) /\ BoundaryNodesExact(After)
InvHull == pc > 0 => After.hull = 0
================================================================================
