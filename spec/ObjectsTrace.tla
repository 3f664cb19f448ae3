------------------------------- MODULE ObjectsTrace -------------------------------
(* Recorded histories of mesh and outline objects, and recorded views of meshes.  *)
(* Positions are digit strings or small integers.                                 *)
EXTENDS Objects, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, pc, st
vars == <<c, pc, st>>
Slots == 0..2
R == Trace[c]
Hist == R.what = "hist"
Init == c \in 1..Len(Trace) /\ pc = 0 /\ st = Start(Slots)
Next == /\ pc < Len(R.ops) /\ pc' = pc + 1 /\ UNCHANGED c
        /\ st' = IF Hist THEN After(st, R.ops[pc + 1]) ELSE st
E == R.ops[pc]
\* The operation that comes next made something that it may make.
InvRight == Hist /\ pc < Len(R.ops) => Right(st, R.ops[pc + 1])
InvMeshes == Hist /\ pc > 0 => \A s \in Slots :
  LET v == E.meshes[s + 1] IN
  /\ \A p \in MeshParts : v[p] = st.mesh[s][p]
  /\ v.empty = MeshEmpty(st.mesh[s])
InvOutlines == Hist /\ pc > 0 => \A s \in Slots :
  LET v == E.outlines[s + 1] IN
  /\ \A p \in OutlineParts : v[p] = st.outline[s][p]
  /\ v.empty = OutlineEmpty(st.outline[s])

Is(w) == R.what = w /\ pc > 0
M == R.mesh
Listed(list, S) == Rng(list) = S /\ Len(list) = Cardinality(S)
InvNodeCells == Is("views") =>
  /\ Len(R.nodeCells) = Len(M.nodes)
  /\ \A n \in DOMAIN M.nodes : Listed(R.nodeCells[n], CellsOfNode(M, n - 1))
InvCellNodes == Is("views") =>
  /\ Len(R.cellNodes) = Len(M.cells)
  /\ \A i \in DOMAIN M.cells : Listed(R.cellNodes[i], NodesOfCell(M, i))
InvRim == Is("views") => Listed(R.rimFaces, RimFaces(M)) /\ Listed(R.rimNodes, RimNodes(M))
InvCellOutlines == Is("views") /\ R.outlined => \A i \in DOMAIN M.cells :
  IF R.dim = 2 THEN OutlineOfCell2(M, i, R.outlines[i]) ELSE OutlineOfCell3(M, i, R.outlines[i])
InvUntouched == Is("views") => R.after = M
InvRemoved == Is("remove") => R.result = Without(R.v, Rng(R.gone), 1) /\ R.map = Moved(R.v, Rng(R.gone))
InvExtract == Is("extract") => R.result = [i \in DOMAIN R.list |-> R.points[R.list[i] + 1]]
InvBox == Is("box") => IF R.dim = 2 THEN IsBox2(R.made, R.lo, R.hi) ELSE IsBox3(R.made, R.lo, R.hi)
\* Round shapes: in units of 1/1000 of the radius.
Sq(x) == x * x
Off(p, q) == [k \in DOMAIN p |-> p[k] - q[k]]
RoundTo(p, r, n) == LET d == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE Sq(p[k]) + S(k - 1) IN S(n) IN d - Sq(r) \in (-4 * r)..(4 * r)
InvCircle == Is("circle") =>
  LET P == R.made.points F == R.made.facets n == R.n IN
  /\ WellFormed(R.made) /\ Len(P) = n /\ Len(F) = n /\ R.made.holes = <<>>
  /\ \A i \in DOMAIN P : RoundTo(P[i], 1000, 2)
  /\ {f[1] : f \in Rng(F)} = 0..n - 1 /\ {f[2] : f \in Rng(F)} = 0..n - 1
  \* One step to the next of n points, always counter-clockwise.
  /\ \A i \in DOMAIN F : LET a == P[F[i][1] + 1] b == P[F[i][2] + 1] IN
       /\ a[1] * b[2] - a[2] * b[1] > 0
       /\ \A k \in DOMAIN F : LET u == P[F[k][1] + 1] v == P[F[k][2] + 1]
                                  d(x, y) == Sq(x[1] - y[1]) + Sq(x[2] - y[2]) IN d(a, b) - d(u, v) \in -20000..20000
  /\ n = 3 \/ \A i, k \in DOMAIN P : i # k => P[i] # P[k]
Up(P, f) == [i \in DOMAIN f |-> P[f[i] + 1]]
Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
\* In units of 1/1000 of the product of lengths of two sides, to stay in range.
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
OutFacing(P, f) == \* every corner of the facet turns outwards from the centre
  LET n == Len(f) IN
  LET RECURSIVE Area(_) Area(k) == IF k = n THEN <<0, 0, 0>> ELSE
        LET x == Cross(Off(P[f[k] + 1], P[f[1] + 1]), Off(P[f[k + 1] + 1], P[f[1] + 1])) y == Area(k + 1) IN <<x[1] + y[1], x[2] + y[2], x[3] + y[3]>>
      s == Area(2) IN
  (s[1] \div 100) * P[f[1] + 1][1] + (s[2] \div 100) * P[f[1] + 1][2] + (s[3] \div 100) * P[f[1] + 1][3] > 0
InvRound == R.what \in {"sphere", "cylinder"} /\ pc > 0 =>
  LET P == R.made.points F == R.made.facets IN
  /\ WellFormed(R.made) /\ R.made.holes = <<>>
  /\ ClosedBall(F) /\ Used(R.made) = 0..Len(P) - 1
  /\ \A f \in Rng(F) : OutFacing(P, f)
  /\ R.what = "sphere" => \A i \in DOMAIN P : RoundTo(P[i], 1000, 3)
  /\ R.what = "cylinder" => /\ \A i \in DOMAIN P : RoundTo(P[i], 1000, 2) /\ P[i][3] \in {R.half, -R.half}
                            /\ Len(P) = 2 * R.n
==================================================================================
