---------------------------- MODULE VoronoiModel ----------------------------
(* The tessellation itself, as an exact algorithm over integers: every cell *)
(* is the convex domain cut by the bisectors towards the other generators.  *)
(* A vertex is homogeneous, <<X, Y, D>> with D > 0, standing for (X/D, Y/D);*)
(* a line <<a, b, c>> is {a x + b y = c}, the inside being a x + b y <= c.   *)
EXTENDS Voronoi

LineOf(p, q) == LET a == q[2] - p[2] b == p[1] - q[1] IN <<a, b, a * p[1] + b * p[2]>>    \* inside: left of p->q
Bisector(g, h) == <<2 * (h[1] - g[1]), 2 * (h[2] - g[2]), Sq(h) - Sq(g)>>
MeetOf(l, k) == LET d == l[1] * k[2] - k[1] * l[2]
                    x == l[3] * k[2] - k[3] * l[2]
                    y == l[1] * k[3] - k[1] * l[3]
                IN IF d > 0 THEN <<x, y, d>> ELSE <<-x, -y, -d>>
Side(l, v) == l[1] * v[1] + l[2] * v[2] - l[3] * v[3]

\* A convex polygon is the cyclic sequence of its bounding lines; vertex i is
\* where line i meets line i + 1.
Verts(L) == [i \in DOMAIN L |-> MeetOf(L[i], Nxt(L, i))]

\* Cut by line l: drop the lines with both end vertices outside, keep the rest.
Cut(L, l) ==
  LET V == Verts(L)
      n == Len(L)
      out(i) == Side(l, V[i]) > 0
      on(i)  == Side(l, V[i]) = 0
      prev(i) == ((i + n - 2) % n) + 1
      gone(i) == (out(i) \/ on(i)) /\ (out(prev(i)) \/ on(prev(i)))   \* line i lies between vertices i-1 and i
      cuts == \E i \in 1..n : out(i)
  IN IF ~cuts THEN L
     ELSE LET keep == SelectSeq([i \in 1..n |-> <<i, L[i]>>], LAMBDA e : ~gone(e[1]))
              \* insert l after the last kept line whose end vertex is cut off
              k == Len(keep)
              pos == {j \in 1..k : LET i == keep[j][1] IN out(i) \/ (on(i) /\ gone((i % n) + 1))}
          IN IF k = 0 THEN <<>>
             ELSE LET j == CHOOSE j \in pos : TRUE
                  IN [i \in 1..(k + 1) |-> IF i <= j THEN keep[i][2] ELSE IF i = j + 1 THEN l ELSE keep[i - 1][2]]

RECURSIVE CutAll(_, _, _, _)
CutAll(L, gens, i, k) ==
  IF k > Len(gens) THEN L
  ELSE CutAll(IF k = i THEN L ELSE Cut(L, Bisector(gens[i], gens[k])), gens, i, k + 1)

DomainLines(outer) == [i \in DOMAIN outer |-> LineOf(outer[i], Nxt(outer, i))]
ModelCell(gens, i, outer) == Verts(CutAll(DomainLines(outer), gens, i, 1))

\* Real polygon P (scale s) is the model polygon V, up to the start vertex.
SameVertex(p, v, s, tol) == /\ Abs(p[1] * v[3] - v[1] * s) <= tol * v[3]
                            /\ Abs(p[2] * v[3] - v[2] * s) <= tol * v[3]
SamePolygon(P, V, s, tol) ==
  /\ Len(P) = Len(V)
  /\ \E k \in 0..(Len(V) - 1) : \A i \in DOMAIN P : SameVertex(P[i], V[((i + k - 1) % Len(V)) + 1], s, tol)

\* Nodes closer than the resolution of the comparison count as one.
Collapse(P) == LET ix == SelectSeq([i \in DOMAIN P |-> i], LAMBDA i : Max2(Abs(P[i][1] - Prv(P, i)[1]), Abs(P[i][2] - Prv(P, i)[2])) > 2)
               IN [i \in DOMAIN ix |-> P[ix[i]]]
CellsAreModel(m, r) ==
  \A c \in 1..NCells(m) :
    SamePolygon(Collapse(CoarsePoly(m, c, r.A)), ModelCell(r.gens, c, r.outer), r.S \div r.A, 2)
=============================================================================
