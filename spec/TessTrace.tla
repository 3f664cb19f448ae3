------------------------------ MODULE TessTrace ------------------------------
(* Recorded tessellations checked against Voronoi: one request and its      *)
(* reply per line of the trace.                                             *)
EXTENDS VoronoiModel, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, pc
Init == c \in 1..Len(Trace) /\ pc = "requested"
Return == pc = "requested" /\ pc' = "returned" /\ UNCHANGED c
Next == Return

Mesh == Trace[c].mesh
Req  == Trace[c].req
Ret  == pc = "returned"
Bounded == Req.outer # <<>>

InvIndices   == Ret => IndicesInRange(Mesh)
InvClosed    == Ret => CellsClosed(Mesh)
InvFaceCells == Ret => FaceCellsConsistent(Mesh)
InvShared    == Ret => FacesShared(Mesh)
InvDistinct  == Ret => FacesDistinct(Mesh)
InvUsed      == Ret => NodesUsed(Mesh)
InvEuler     == Ret => Euler(Mesh) = 1 - Len(Req.holes)
InvBFaces    == Ret => BoundaryFacesExact(Mesh)
InvBNodes    == Ret => BoundaryNodesExact(Mesh)
InvBLoops    == Ret => BoundaryLoops(Mesh)
InvOneCell   == Ret => OneCellPerGenerator(Mesh, Req)
InvNearest   == (Ret /\ Req.convex) => NearestGenerator(Mesh, Req)
InvBisect    == (Ret /\ Req.convex) => SharedFacesBisect(Mesh, Req)
InvConvex    == (Ret /\ Req.convex) => CellsConvex(Mesh, Req)
InvPositive  == Ret => CellsPositive(Mesh, Req)
InvOwn       == (Ret /\ Req.convex) => HasOwnGenerator(Mesh, Req)
InvArea      == (Ret /\ Bounded) => TotalArea(Mesh, Req)
InvOnce      == (Ret /\ Bounded) => ProbesOnce(Mesh, Req)
InvOutside   == (Ret /\ Bounded) => ProbesOutside(Mesh, Req)
InvProbes    == Ret => ProbesNearest(Mesh, Req)
InvFollows   == (Ret /\ Bounded) => BoundaryFollowsDomain(Mesh, Req)
InvModel     == (Ret /\ Bounded /\ Req.convex) => CellsAreModel(Mesh, Req)
InvCorners   == (Ret /\ Bounded) => CornersExact(Mesh, Req)
==============================================================================
