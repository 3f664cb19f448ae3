---------------------------- MODULE VoronoiDesign ----------------------------
(* The design, explored exhaustively: generators are added one by one to a  *)
(* box; after every step the exact cells must tile the box, and adding a    *)
(* generator may only take area from the others.                            *)
EXTENDS VoronoiModel, TLC
CONSTANTS W, H, MaxGens, OuterKind
VARIABLES gens
Outer == IF OuterKind = "box" THEN <<<<0, 0>>, <<W, 0>>, <<W, H>>, <<0, H>>>>
         ELSE <<<<0, 0>>, <<W, 0>>, <<0, H>>>>                \* triangle
Inside(p) == \A i \in DOMAIN Outer : Cross(Outer[i], Nxt(Outer, i), p) > 0
Sites == {p \in (0..W) \X (0..H) : Inside(p)}
Init == gens = <<>>
\* Order does not matter for a set of generators, so add them in one fixed order.
Later(p) == \A i \in DOMAIN gens : p[1] > gens[i][1] \/ (p[1] = gens[i][1] /\ p[2] > gens[i][2])
Insert(p) == Len(gens) < MaxGens /\ Later(p) /\ gens' = Append(gens, p)
Next == \E p \in Sites : Insert(p)

Cells == [i \in DOMAIN gens |-> ModelCell(gens, i, Outer)]
HSq(v, g) == Sq(<<v[1] - g[1] * v[3], v[2] - g[2] * v[3]>>)         \* D^2 |v/D - g|^2
HCross(u, v, w) == \* sign of the turn u -> v -> w for homogeneous points
   u[1] * (v[2] * w[3] - w[2] * v[3]) - u[2] * (v[1] * w[3] - w[1] * v[3]) + u[3] * (v[1] * w[2] - w[1] * v[2])
\* Closed cell membership of the point (q[1]/4, q[2]/4).
InCell(V, q) == \A i \in DOMAIN V : HCross(V[i], Nxt(V, i), <<q[1], q[2], 4>>) >= 0
Probes == {q \in (0..(4 * W)) \X (0..(4 * H)) : q[1] % 2 = 1 /\ q[2] % 2 = 1 /\
             \A i \in DOMAIN Outer : Cross(ScalePoly(Outer, 4)[i], Nxt(ScalePoly(Outer, 4), i), q) > 0}

ProperCells == \A i \in DOMAIN gens : LET V == Cells[i] IN
   /\ Len(V) >= 3
   /\ \A k \in DOMAIN V : HCross(V[k], Nxt(V, k), Nxt(V, (k % Len(V)) + 1)) > 0
Equidistant == LET C == Cells IN \A i \in DOMAIN gens : \A k \in DOMAIN C[i] :
   \A j \in DOMAIN gens : HSq(C[i][k], gens[i]) <= HSq(C[i][k], gens[j])
Tiles == LET C == Cells IN gens # <<>> => \A q \in Probes :
   \A i \in DOMAIN gens : InCell(C[i], q) <=> (\A j \in DOMAIN gens : Sq(<<q[1] - 4 * gens[i][1], q[2] - 4 * gens[i][2]>>) <= Sq(<<q[1] - 4 * gens[j][1], q[2] - 4 * gens[j][2]>>))
\* Interior vertices are vertices of at least three cells: no cell has a corner in
\* the middle of another cell's side.
OnBorder(v) == \E i \in DOMAIN Outer : Side(LineOf(Outer[i], Nxt(Outer, i)), v) = 0
Same(u, v) == u[1] * v[3] = v[1] * u[3] /\ u[2] * v[3] = v[2] * u[3]
NoHangingNodes == LET C == Cells IN \A i \in DOMAIN gens : \A k \in DOMAIN C[i] :
   ~OnBorder(C[i][k]) => \A j \in DOMAIN gens : HSq(C[i][k], gens[j]) = HSq(C[i][k], gens[i]) => \E l \in DOMAIN C[j] : Same(C[i][k], C[j][l])
Shrinks == [][\A i \in DOMAIN gens : \A k \in DOMAIN ModelCell(gens', i, Outer) :
                LET v == ModelCell(gens', i, Outer)[k] IN
                \A j \in DOMAIN gens : HSq(v, gens[i]) <= HSq(v, gens[j])]_gens
==============================================================================
