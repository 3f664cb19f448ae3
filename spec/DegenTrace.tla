----------------------------- MODULE DegenTrace -----------------------------
(* Tessellations of generators that may coincide.  Generators are in units  *)
(* of 1/64 grid; the map names the cell of each one.                        *)
EXTENDS Voronoi, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, pc
Init == c \in 1..Len(Trace) /\ pc = "requested"
Next == pc = "requested" /\ pc' = "returned" /\ UNCHANGED c
R == Trace[c]
Ret == pc = "returned"
N == Len(R.gens)
Dist(a, b) == Max2(Abs(a[1] - b[1]), Abs(a[2] - b[2]))

\* One entry per generator, naming every cell of the mesh.
InvMapShape == Ret => Len(R.map) = N /\ Rng(R.map) = 0..(Len(R.mesh.cells) - 1)
\* Cells are numbered in the order of their first generators.
InvFirstSeen == Ret => \A i \in 1..N : \A k \in 0..(R.map[i] - 1) : \E j \in 1..(i - 1) : R.map[j] = k
InvSame == Ret => \A i, j \in 1..N : R.gens[i] = R.gens[j] => R.map[i] = R.map[j]
\* Sharing a cell takes closeness on both axes.  (A zero tolerance stands for
\* one far below the grid.)
InvWithin == Ret => \A i, j \in 1..N : R.map[i] = R.map[j] => Dist(R.gens[i], R.gens[j]) <= R.tol
InvApart == Ret => \A i, j \in 1..N : Dist(R.gens[i], R.gens[j]) > R.tol => R.map[i] # R.map[j]
\* The mesh is the tessellation of the first generator of each cell.
First(k) == CHOOSE i \in 1..N : R.map[i] = k /\ \A j \in 1..(i - 1) : R.map[j] # k
Reps == [k \in 1..Len(R.mesh.cells) |-> R.gens[First(k - 1)]]
InvRepresentatives == (Ret /\ Rng(R.map) = 0..(Len(R.mesh.cells) - 1)) =>
  LET reps == Reps S == R.S IN
  \A k \in 1..Len(R.mesh.cells) : \A j \in 1..Len(R.mesh.cells[k]) :
    LET v == Node(R.mesh, From(R.mesh, R.mesh.cells[k][j])) IN
    \A l \in DOMAIN reps : l # k =>
      LET h == <<reps[l][1] - reps[k][1], reps[l][2] - reps[k][2]>>
          w == <<v[1] - S * reps[k][1], v[2] - S * reps[k][2]>>
      IN \* 2 w.h <= S |h|^2, with room for the rounding of w
         2 * (w[1] * h[1] + w[2] * h[2]) <= S * Sq(h) + 4 * (Abs(h[1]) + Abs(h[2])) + 64
InvKept == Ret => R.kept
=============================================================================
