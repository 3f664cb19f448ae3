---- MODULE GeometryTrace ----
\* Recorded answers to geometric questions.  Positions that were returned are in
\* units of 1/K.
EXTENDS Geometry, TLC, TLCExt, Json, IOUtils
W == INSTANCE Csg
K == 1000
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, pc
vars == <<c, pc>>
Case == Cases[c]
Init == c \in DOMAIN Cases /\ pc = 0
Next == pc < Len(Case.qs) /\ pc' = pc + 1 /\ c' = c
Q == Case.qs[pc]
Is(w) == pc > 0 /\ Case.what = w

\* Is the returned place x the rational place r (numerators, denominator last)?
Close(x, r) == LET d == r[Len(r)] IN \A k \in 1..(Len(r) - 1) : Abs(x[k] * d - r[k] * K) <= 2 * d
CloseN(v, n, d) == Abs(v * Abs(d) - n * Sgn(d) * K) <= 2 * Abs(d)

Edges == UNION {Rng(Case.parts[k]) : k \in DOMAIN Case.parts}
InvWithin == Is("within") => (Q.a <=> Within(Q.p, Case.parts))
InvNearest == Is("nearest") =>
  /\ \E r \in Nearest(Q.p, Edges) : Close(Q.x, r)
  /\ LET v == [k \in 1..2 |-> K * Q.p[k] - Q.x[k]] IN Abs(Q.d * Q.d - Dot(v, v)) <= 8 * Q.d + 16
InvIntersections == Is("inter") =>
  LET T == Meets(Q.s, Edges) IN
  /\ Q.n = Len(Q.x)
  /\ \A r \in T : \E i \in DOMAIN Q.x : Close(Q.x[i], r)
  /\ \A i \in DOMAIN Q.x : \E r \in T \cup Ends(Q.s, Edges) : Close(Q.x[i], r)
  /\ Len(Q.x) >= Cardinality(T)
  /\ Len(Q.x) <= Cardinality(T \cup Ends(Q.s, Edges))
InvSegments == Is("segments") =>
  LET M == Meet(<<Q.a, Q.b>>, <<Q.c, Q.d>>) IN
  (Q.hit <=> M # {}) /\ (\A r \in M : Q.hit => Close(Q.x, r))

Up(F, m) == [i \in DOMAIN F |-> [j \in DOMAIN F[i] |-> [k \in 1..3 |-> m * F[i][j][k]]]]
InvHull2 == Is("hull2") => HullRight2(Rng(Case.points), Q.facets, Case.strict)
InvHull3 == Is("hull3") =>
  /\ Hull3(Rng(Case.points), Q.facets)
  /\ \A p \in Rng(Case.inner) : W!Wind3(Up(Q.facets, 32), p) = 1
\* Both orders of the question.
InvConvex2 == Is("convex2") =>
  LET t == Touch2(Case.A, Case.B) IN
  /\ (Q.meets[1] <=> t) /\ (Q.meets[2] <=> t)
  /\ (Q.in[1] <=> Inside2(Case.A, Case.B)) /\ (Q.in[2] <=> Inside2(Case.B, Case.A))
InvConvex3 == Is("convex3") =>
  LET A == Rng(Case.A) B == Rng(Case.B) t == ~Apart3(A, B) IN
  /\ (Q.meets[1] <=> t) /\ (Q.meets[2] <=> t)
  /\ (Q.in[1] <=> Inside3(A, B)) /\ (Q.in[2] <=> Inside3(B, A))

InvLine == Is("line") =>
  /\ Q.collinear <=> (Q.b = Q.a \/ Q.c = Q.a \/ (IF Len(Q.a) = 2 THEN Side(Q.a, Q.b, Q.c) = 0 ELSE Cross3(Minus(Q.b, Q.a), Minus(Q.c, Q.a)) = <<0, 0, 0>>))
  /\ Q.between <=> (LET u == Minus(Q.b, Q.a) v == Minus(Q.c, Q.a) IN
       /\ (IF Len(u) = 2 THEN Cross2(u, v) = 0 ELSE Cross3(u, v) = <<0, 0, 0>>)
       /\ 0 <= Dot(u, v) /\ Dot(u, v) <= Dot(u, u) /\ (u = [k \in DOMAIN u |-> 0] => v = u))
InvSides == Is("sides") =>
  /\ Len(Q.a) = 2 => Q.side = -Sgn(Side(Q.a, Q.b, Q.c))
  /\ Len(Q.a) = 3 => /\ Q.side = Sgn(Height(<<Q.a, Q.b, Q.c>>, Q.d))
                     /\ Q.n = NormalOf(<<Q.a, Q.b, Q.c>>)

\* Areas, volumes, centroids (times their denominators).
InvCell2 == Is("cell2") =>
  /\ Q.area = CellArea2(Case.loop)
  /\ \A k \in 1..2 : CloseN(Q.x[k], CellMoment(Case.loop, k), 3 * CellArea2(Case.loop))
InvCell3 == Is("cell3") =>
  /\ Q.vol = Volume6(Case.faces)
  /\ \A k \in 1..3 : CloseN(Q.x[k], Moment24(Case.faces, k), 4 * Volume6(Case.faces))

\* The circumcentre is as far from each of the corners, and in their plane.
Sq(a) == Dot(a, a)
Bisects(x, a, b) == LET u == Minus(b, a) IN   \* 2 x.u = |b|^2 - |a|^2
  Abs(2 * Dot(x, u) - K * (Sq(b) - Sq(a))) <= 4 * (Abs(u[1]) + Abs(u[2]) + (IF Len(u) = 3 THEN Abs(u[3]) ELSE 0)) + 4
InvCircum == Is("circum") =>
  LET flat == Len(Q.p) = 3 /\ Len(Q.p[1]) = 3 /\ NormalOf(Q.p) = <<0, 0, 0>> IN
  /\ flat <=> ~Q.ok
  /\ Q.ok => /\ \A i \in 2..Len(Q.p) : Bisects(Q.x, Q.p[1], Q.p[i])
             /\ (Len(Q.p) = 3 /\ Len(Q.p[1]) = 3) =>
                 LET n == NormalOf(Q.p) v == [k \in 1..3 |-> Q.x[k] - K * Q.p[1][k]] IN
                 Abs(Dot(n, v)) <= 4 * (Abs(n[1]) + Abs(n[2]) + Abs(n[3]))

\* Rays from p along u.
Plane(p, u, o, n) == LET h == Dot(Minus(o, p), n) s == Dot(u, n) IN
  IF s = 0 THEN (IF h = 0 THEN {Append(p, 1)} ELSE {})
  ELSE IF Sgn(h) * Sgn(s) < 0 THEN {} ELSE {Rat([k \in 1..3 |-> p[k] * Abs(s) + Sgn(s) * h * u[k]], Abs(s))}
InvPlane == Is("plane") => LET M == Plane(Q.p, Q.u, Q.o, Q.n) IN (Q.hit <=> M # {}) /\ \A r \in M : Close(Q.x, r)
\* From inside a box: the first of its planes that is met.
BoxPlanes == {<<k, 1>> : k \in 1..3} \cup {<<k, 2>> : k \in 1..3}
InvBox == Is("box") =>
  LET O(b) == IF b[2] = 1 THEN Q.low ELSE Q.high
      E(k) == [j \in 1..3 |-> IF j = k THEN 1 ELSE 0]
      M == UNION {{<<b, r>> : r \in Plane(Q.p, Q.u, O(b), E(b[1]))} : b \in BoxPlanes}
      Far(r) == Sq([k \in 1..3 |-> r[k] - r[4] * Q.p[k]])     \* over r[4] squared
      first == {m \in M : \A n \in M : Far(m[2]) * n[2][4] * n[2][4] <= Far(n[2]) * m[2][4] * m[2][4]}
  IN \E m \in first : Q.plane = 2 * (m[1][1] - 1) + m[1][2] - 1 /\ Close(Q.x, m[2])
\* Out of a circle or sphere (the ray starts in it): a place on it, forward along the ray.
InvRound == Is("round") =>
  LET v == [k \in DOMAIN Q.p |-> Q.x[k] - K * Q.p[k]] w == [k \in DOMAIN Q.p |-> Q.x[k] - K * Q.o[k]] z == Minus(Q.p, Q.o) IN
  IF Sq(z) > Q.r * Q.r THEN Close(Q.x, Append(Q.p, 1))
  ELSE /\ Abs(Sq(w) - K * K * Q.r * Q.r) <= 4 * K * Q.r
       /\ Dot(v, Q.u) >= -40
       /\ IF Len(Q.p) = 2 THEN Abs(Cross2(v, Q.u)) <= 40 ELSE \A k \in 1..3 : Abs(Cross3(v, Q.u)[k]) <= 40
====
