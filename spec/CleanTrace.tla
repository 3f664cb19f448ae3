------------------------------- MODULE CleanTrace -------------------------------
(* Edge cleaning recorded from the library: the mesh before and after, with      *)
(* bits[n] naming the exact position of node n (positions are distinct before).  *)
(*   len[f]   length of face f before, in fixed point                            *)
(*   p, q     the tolerance is p/q                                                *)
(*   corners  nodes (before) that are corners of the domain                      *)
(*   bends    border nodes (before) that may be corners of the border            *)
EXTENDS MeshEdit, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, pc
Init == c \in 1..Len(Trace) /\ pc = "before"
Next == pc = "before" /\ pc' = "after" /\ UNCHANGED c
R == Trace[c]
Ret == pc = "after"
B == R.before
A == R.after

\* (Two faces may come to join the same nodes when whole chains of edges collapse.)
Valid(m) == /\ IndicesInRange(m) /\ CellsClosed(m) /\ FaceCellsConsistent(m) /\ FacesShared(m) /\ NodesUsed(m)
            /\ \A f \in 1..NFaces(m) : m.faces[f][1] # m.faces[f][2]
InvTopology == Ret => Valid(A)
InvBoundary == Ret => Boundary(A)
InvOneCell == Ret => NCells(A) = NCells(B)
\* Every node is where a node was, and no position is taken twice.
InvNodes == Ret => Rng(A.bits) \subseteq Rng(B.bits) /\ Cardinality(Rng(A.bits)) = Len(A.bits)
Sound == Valid(A) /\ NCells(A) = NCells(B) /\ Rng(A.bits) \subseteq Rng(B.bits)
Corners == Rng(R.corners)
InvCorners == Ret => \A n \in Corners : B.bits[n + 1] \in Rng(A.bits)

\* The collapse: survivors stay, every other node goes to a survivor it shares a face with.
Survives(n) == B.bits[n + 1] \in Rng(A.bits)
LoopBits(m, k) == LET L == CellLoop(m, k) IN [j \in DOMAIN L |-> m.bits[L[j] + 1]]
FacesAt(n) == {f \in 1..NFaces(B) : n \in {B.faces[f][1], B.faces[f][2]}}
CellsAt(n) == UNION {CellsAtFace(B, f - 1) : f \in FacesAt(n)}
Neighbors(n) == {IF B.faces[f][1] = n THEN B.faces[f][2] ELSE B.faces[f][1] : f \in FacesAt(n)}
\* Candidates for where n went.
Targets(n) == {k \in Neighbors(n) : Survives(k) /\ \A x \in CellsAt(n) : B.bits[k + 1] \in Rng(LoopBits(A, x + 1))}
Gone == {n \in 0..(NNodes(B) - 1) : ~Survives(n)}
InvCollapsed == (Ret /\ Sound) => \A n \in Gone : Targets(n) # {}
RECURSIVE Dedup(_)
Dedup(s) == IF Len(s) < 2 THEN s ELSE IF s[1] = s[2] THEN Dedup(Tail(s)) ELSE <<s[1]>> \o Dedup(Tail(s))
Cyclic(s) == LET d == Dedup(s) IN IF Len(d) > 1 /\ d[1] = d[Len(d)] THEN Tail(d) ELSE d
\* Loops are equal up to where they start.
Rotates(s, t) == Len(s) = Len(t) /\ (s = <<>> \/ \E k \in 0..(Len(s) - 1) : \A j \in DOMAIN s : s[j] = t[((j - 1 + k) % Len(s)) + 1])
AllFound == Sound /\ \A n \in Gone : Targets(n) # {}
\* Cell k of A is cell k of B with its lost nodes replaced by where they went.
Fits(k, f) == LET L == CellLoop(B, k) IN
  Rotates(Cyclic([j \in DOMAIN L |-> B.bits[(IF L[j] \in DOMAIN f THEN f[L[j]] ELSE L[j]) + 1]]), LoopBits(A, k))
InvShapes == (Ret /\ AllFound) =>
  \A k \in 1..NCells(B) :
    LET G == Gone \cap Rng(CellLoop(B, k)) T == UNION {Targets(n) : n \in G} IN
    \E f \in {g \in [G -> T] : \A n \in G : g[n] \in Targets(n)} : Fits(k, f)

(* ---- what may and what must collapse --------------------------------------- *)
Longest(k) == CHOOSE l \in {R.len[Id(x) + 1] : x \in Rng(B.cells[k + 1])} : \A x \in Rng(B.cells[k + 1]) : R.len[Id(x) + 1] <= l
MaxLen(f) == LET S == {Longest(k) : k \in CellsAtFace(B, f)} IN CHOOSE l \in S : \A x \in S : x <= l
Slack == 4 * R.q
MayBeShort(f) == R.q * R.len[f + 1] < R.p * MaxLen(f) + Slack
IsShort(f) == R.q * R.len[f + 1] + Slack < R.p * MaxLen(f)
FaceOf(n, k) == CHOOSE f \in FacesAt(n) : k \in Rng(B.faces[f])
InvOnlyShort == (Ret /\ AllFound) =>
  \A n \in Gone : \E k \in Targets(n) : MayBeShort(FaceOf(n, k) - 1)
InvUntouched == (Ret /\ \A f \in 0..(NFaces(B) - 1) : ~MayBeShort(f)) =>
  /\ A.bits = B.bits /\ A.faces = B.faces /\ A.cells = B.cells /\ A.faceCells = B.faceCells
  /\ A.bnodes = B.bnodes /\ A.bfaces = B.bfaces
\* A short edge is left only where collapsing it is not allowed or a neighbour collapsed.
Moved == Gone \cup UNION {Targets(n) : n \in Gone}
\* On several processes another one may have had its reasons to keep a shared edge.
SharedNodeSet == UNION {Rng(B.sharedNodes[i]) : i \in DOMAIN B.sharedNodes}
Stays(f) == \/ R.parallel /\ \E k \in CellsAtFace(B, f) : Rng(CellLoop(B, k + 1)) \cap SharedNodeSet # {}
            \/ \E n \in Rng(B.faces[f + 1]) : n \in Rng(R.bends) \/ n \in Moved
            \/ ~Collapsible(B, f)
            \/ \E k \in CellsAtFace(B, f) : Len(A.cells[k + 1]) <= 3
InvCleaned == (Ret /\ AllFound) =>
  \A f \in 0..(NFaces(B) - 1) : IsShort(f) => Stays(f)
\* What is left of the shared lists keeps its order.
InvSharing == (Ret /\ Sound) =>
  /\ A.neighbors = B.neighbors /\ Len(A.sharedNodes) = Len(B.sharedNodes) /\ Len(A.sharedFaces) = Len(B.sharedFaces)
  /\ \A i \in DOMAIN B.sharedNodes :
       LET was == SelectSeq([j \in DOMAIN B.sharedNodes[i] |-> B.bits[B.sharedNodes[i][j] + 1]], LAMBDA b : b \in Rng(A.bits)) IN
       was = [j \in DOMAIN A.sharedNodes[i] |-> A.bits[A.sharedNodes[i][j] + 1]]
=================================================================================
