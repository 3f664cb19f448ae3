-------------------------------- MODULE DistTrace --------------------------------
(* Recorded distributed tessellations against the serial tessellation of the    *)
(* same generators in the same domain, and against each other.                  *)
(* A line:                                                                      *)
(*   n, owner       processes; owner[g] is the process (0-based) of generator g *)
(*   parts          one mesh per process, coordinates scaled and rounded, with  *)
(*                  neighbors, sharedNodes, sharedFaces, and bits: for each node *)
(*                  a token that names its exact coordinates                    *)
(*   serial         the serial mesh of all generators (with bits)               *)
(*   order          the generator of each cell of the serial mesh               *)
(*   tol            slack; win <<xlo, ylo, xhi, yhi>>: only positions in it are *)
(*                  compared with the serial mesh (unbounded requests)          *)
EXTENDS PolyMesh, SequencesExt, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, pc
Init == c \in 1..Len(Trace) /\ pc = "requested"
Next == pc = "requested" /\ pc' = "returned" /\ UNCHANGED c
R == Trace[c]
Ret == pc = "returned"
Ranks == 1..R.n
Part(r) == R.parts[r]
Close(p, q) == Abs(p[1] - q[1]) <= R.tol /\ Abs(p[2] - q[2]) <= R.tol
Seen(p) == R.win[1] <= p[1] /\ p[1] <= R.win[3] /\ R.win[2] <= p[2] /\ p[2] <= R.win[4]
Covers(S, T) == \A i \in DOMAIN S : Seen(S[i]) => \E j \in DOMAIN T : Close(S[i], T[j])
\* The generators of a process, in order.
Mine(r) == SelectSeq([g \in DOMAIN R.owner |-> g], LAMBDA g : R.owner[g] = r - 1)
\* Position of generator g's cell in the serial mesh.
CellOf(g) == CHOOSE k \in DOMAIN R.order : R.order[k] = g
SerialPoly(g) == CellPoly(R.serial, CellOf(g))

(* ---- C06: the serial tessellation, divided ------------------------------- *)
InvTopology == Ret => \A r \in Ranks : Topology(Part(r))
InvBoundary == Ret => \A r \in Ranks : BoundaryFacesExact(Part(r)) /\ BoundaryNodesExact(Part(r))
InvCount == Ret => \A r \in Ranks : NCells(Part(r)) = Len(Mine(r))
Counted(r) == NCells(Part(r)) = Len(Mine(r)) /\ IndicesInRange(Part(r)) /\ CellsClosed(Part(r))
InvCells == Ret => \A r \in Ranks : Counted(r) =>
  \A k \in DOMAIN Mine(r) : LET P == CellPoly(Part(r), k) Q == SerialPoly(Mine(r)[k]) IN Covers(P, Q) /\ Covers(Q, P)
\* Cells of one process are joined by a face exactly when they are in the serial mesh.
Adjacent(m) == {<<Id(m.faceCells[f][1]) + 1, Id(m.faceCells[f][2]) + 1>> : f \in {f \in 1..NFaces(m) : Len(m.faceCells[f]) = 2}}
Both(S) == S \cup {<<e[2], e[1]>> : e \in S}
\* Within the window: at least one end of the face is in it.
FaceSeen(m, f) == Seen(Node(m, Face(m, f)[1])) \/ Seen(Node(m, Face(m, f)[2]))
SerialPairs == Both({<<R.order[Id(R.serial.faceCells[f][1]) + 1], R.order[Id(R.serial.faceCells[f][2]) + 1]>>
                      : f \in {f \in 1..NFaces(R.serial) : Len(R.serial.faceCells[f]) = 2 /\ FaceSeen(R.serial, f - 1)}})
PartPairs(r) == LET m == Part(r) M == Mine(r) IN
  Both({<<M[Id(m.faceCells[f][1]) + 1], M[Id(m.faceCells[f][2]) + 1]>>
          : f \in {f \in 1..NFaces(m) : Len(m.faceCells[f]) = 2 /\ FaceSeen(m, f - 1)}})
InvAdjacent == Ret => \A r \in Ranks : Counted(r) =>
  PartPairs(r) = {e \in SerialPairs : R.owner[e[1]] = r - 1 /\ R.owner[e[2]] = r - 1}
InvKept == Ret => \A r \in Ranks : Part(r).kept

(* ---- C07: shared elements -------------------------------------------------- *)
Pos(r, n) == Node(Part(r), n)
Nbrs(r) == Part(r).neighbors
InvNeighbors == Ret => \A r \in Ranks :
  /\ \A i \in DOMAIN Nbrs(r) : Nbrs(r)[i] \in 0..(R.n - 1) /\ Nbrs(r)[i] # r - 1
  /\ \A i \in 1..(Len(Nbrs(r)) - 1) : Nbrs(r)[i] < Nbrs(r)[i + 1]
  /\ Len(Part(r).sharedNodes) = Len(Nbrs(r)) /\ Len(Part(r).sharedFaces) = Len(Nbrs(r))
Shaped == \A r \in Ranks : /\ \A i \in DOMAIN Nbrs(r) : Nbrs(r)[i] \in 0..(R.n - 1)
                           /\ Len(Part(r).sharedNodes) = Len(Nbrs(r)) /\ Len(Part(r).sharedFaces) = Len(Nbrs(r))
Knows(r, q) == \E i \in DOMAIN Nbrs(r) : Nbrs(r)[i] = q - 1
At(r, q) == CHOOSE i \in DOMAIN Nbrs(r) : Nbrs(r)[i] = q - 1
SN(r, q) == IF Knows(r, q) THEN Part(r).sharedNodes[At(r, q)] ELSE <<>>
SF(r, q) == IF Knows(r, q) THEN Part(r).sharedFaces[At(r, q)] ELSE <<>>
InvMutual == Ret => \A r, q \in Ranks : Knows(r, q) = Knows(q, r)
InRange == \A r, q \in Ranks : (r # q) =>
  /\ \A i \in DOMAIN SN(r, q) : SN(r, q)[i] \in 0..(NNodes(Part(r)) - 1)
  /\ \A i \in DOMAIN SF(r, q) : SF(r, q)[i] \in 0..(NFaces(Part(r)) - 1)
InvSharedValid == (Ret /\ Shaped) => /\ InRange
  /\ \A r, q \in Ranks : /\ Cardinality(Rng(SN(r, q))) = Len(SN(r, q))
                         /\ Cardinality(Rng(SF(r, q))) = Len(SF(r, q))
Usable == Shaped /\ InRange
InvSameNodes == (Ret /\ Usable) => \A r, q \in Ranks : r < q =>
  /\ Len(SN(r, q)) = Len(SN(q, r))
  /\ \A i \in 1..Min2(Len(SN(r, q)), Len(SN(q, r))) : Part(r).bits[SN(r, q)[i] + 1] = Part(q).bits[SN(q, r)[i] + 1]
Ends(r, f) == {Part(r).bits[n + 1] : n \in {Face(Part(r), f)[1], Face(Part(r), f)[2]}}
InvSameFaces == (Ret /\ Usable) => \A r, q \in Ranks : r < q =>
  /\ Len(SF(r, q)) = Len(SF(q, r))
  /\ \A i \in 1..Min2(Len(SF(r, q)), Len(SF(q, r))) : Ends(r, SF(r, q)[i]) = Ends(q, SF(q, r)[i])
\* Exactly the nodes and faces that both processes have are shared.
\* (exact: the processes hold the very same positions)
Twin(r, n, q, k) == IF R.exact THEN Part(r).bits[n + 1] = Part(q).bits[k + 1] ELSE Close(Pos(r, n), Node(Part(q), k))
Twins(r, q) == {n \in 0..(NNodes(Part(r)) - 1) : \E k \in 0..(NNodes(Part(q)) - 1) : Twin(r, n, q, k)}
FaceTwins(r, q) == LET T == Twins(r, q) m == Part(r) w == Part(q) IN
  {f \in 0..(NFaces(m) - 1) : /\ Face(m, f)[1] \in T /\ Face(m, f)[2] \in T
     /\ \E g \in 1..NFaces(w) : LET a == Face(m, f)[1] b == Face(m, f)[2] p == w.faces[g][1] s == w.faces[g][2]
                                IN (Twin(r, a, q, p) /\ Twin(r, b, q, s)) \/ (Twin(r, a, q, s) /\ Twin(r, b, q, p))}
InvAllNodes == (Ret /\ Usable) => \A r, q \in Ranks : r # q => Rng(SN(r, q)) = Twins(r, q)
InvAllFaces == (Ret /\ Usable) => \A r, q \in Ranks : r # q => Rng(SF(r, q)) = FaceTwins(r, q)
\* No sharing: no neighbours either.
InvNoIdleNeighbor == (Ret /\ Usable) => \A r, q \in Ranks : (r # q /\ Knows(r, q)) => SN(r, q) # <<>> \/ SF(r, q) # <<>>
InvVerdict == Ret => \A r \in Ranks : Part(r).verdict = "ok"

(* ---- C09: the replicating tessellator ------------------------------------- *)
InvExactCells == Ret => \A r \in Ranks : Counted(r) =>
  \A k \in DOMAIN Mine(r) :
    LET m == Part(r) s == R.serial
        L == CellLoop(m, k) K == CellLoop(s, CellOf(Mine(r)[k]))
    IN /\ Len(L) = Len(K)
       /\ {m.bits[L[j] + 1] : j \in DOMAIN L} = {s.bits[K[j] + 1] : j \in DOMAIN K}
==================================================================================
