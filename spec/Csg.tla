---- MODULE Csg ----
\* Boolean operations on solids, and what an outline encloses.
\* A solid is the set of the places inside it.  An outline is a sequence of
\* directed pieces of boundary; what it encloses is given by how often it winds
\* around a place: once around those inside, not at all around those outside.
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions

Apply(op, A, B) == CASE op = "union" -> A \cup B
                     [] op = "intersect" -> A \cap B
                     [] op = "subtract" -> A \ B

\* ---- two dimensions: pieces <<x1, y1, x2, y2>>
Side2(s, p) == (s[3] - s[1]) * (p[2] - s[2]) - (s[4] - s[2]) * (p[1] - s[1])
Turn2(s, p) == IF s[2] <= p[2] /\ p[2] < s[4] /\ Side2(s, p) > 0 THEN 1
               ELSE IF s[4] <= p[2] /\ p[2] < s[2] /\ Side2(s, p) < 0 THEN -1 ELSE 0
Wind2(segs, p) == FoldLeft(LAMBDA n, s : n + Turn2(s, p), 0, segs)
Area2(segs) == FoldLeft(LAMBDA n, s : n + s[1] * s[4] - s[3] * s[2], 0, segs)

\* ---- three dimensions: pieces are planar polygons <<<<x, y, z>>, ...>>, and
\* a ray in the direction of x meets those that wind around it, seen along it
Pieces(f) == [i \in DOMAIN f |-> LET q == f[(i % Len(f)) + 1] IN <<f[i][2], f[i][3], q[2], q[3]>>]
Normal(f) ==
  LET Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
      Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
      C(i) == Cross(Sub(f[i], f[1]), Sub(f[i + 1], f[1]))
  IN FoldLeft(LAMBDA n, i : LET c == C(i) IN <<n[1] + c[1], n[2] + c[2], n[3] + c[3]>>, <<0, 0, 0>>, [i \in 1..(Len(f) - 2) |-> i + 1])
\* Is the piece met at an x beyond that of p ?
Beyond(f, p) ==
  LET n == Normal(f)
      d == n[1] * (f[1][1] - p[1]) + n[2] * (f[1][2] - p[2]) + n[3] * (f[1][3] - p[3])
  IN (n[1] > 0 /\ d > 0) \/ (n[1] < 0 /\ d < 0)
Turn3(f, p) == LET w == Wind2(Pieces(f), <<p[2], p[3]>>) IN IF w # 0 /\ Beyond(f, p) THEN w ELSE 0
Wind3(faces, p) == FoldLeft(LAMBDA n, f : n + Turn3(f, p), 0, faces)

\* ---- boundaries have no boundary: the ends of the pieces (in 2D, points; in
\* 3D, edges) cancel.  They are given in order of what they are: <<what, +1 or -1>>.
Cancels(ends) ==
  LET r == FoldLeft(LAMBDA s, e : IF e[1] = s[1] THEN <<s[1], s[2] + e[2], s[3]>> ELSE <<e[1], e[2], s[3] /\ s[2] = 0>>, <<0, 0, TRUE>>, ends)
  IN r[3] /\ r[2] = 0
====
