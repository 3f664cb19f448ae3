---- MODULE Geometry ----
\* The exact answers to geometric questions about points on an integer grid.
\* Rational points are <<numerators..., denominator>> in lowest terms.
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions

Rng(s) == {s[i] : i \in DOMAIN s}
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Abs(x) == IF x < 0 THEN -x ELSE x
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a < b THEN b ELSE a
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % Abs(b))
Minus(a, b) == [k \in DOMAIN a |-> a[k] - b[k]]
Dot(a, b) == FoldLeft(LAMBDA s, k : s + a[k] * b[k], 0, [k \in DOMAIN a |-> k])
Cross2(a, b) == a[1] * b[2] - a[2] * b[1]
Side(a, b, p) == Cross2(Minus(b, a), Minus(p, a))          \* > 0: p on the left of a -> b
Cross3(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Rat(n, d) == LET g == FoldLeft(LAMBDA x, y : Gcd(x, y), Abs(d), n) s == Sgn(d) * g IN Append([k \in DOMAIN n |-> n[k] \div s], d \div s)

\* ---- outlines: edges <<a, b>>
OnEdge(p, e) == /\ Side(e[1], e[2], p) = 0
                /\ \A k \in 1..2 : Lo(e[1][k], e[2][k]) <= p[k] /\ p[k] <= Hi(e[1][k], e[2][k])
\* Does the ray from p in the direction of x cross the edge?
Crossed(p, e) == \/ (e[1][2] <= p[2] /\ p[2] < e[2][2] /\ Side(e[1], e[2], p) > 0)
                 \/ (e[2][2] <= p[2] /\ p[2] < e[1][2] /\ Side(e[1], e[2], p) < 0)
\* 2 on the boundary of the part, 1 inside, 0 outside
Where(p, part) == IF \E e \in Rng(part) : OnEdge(p, e) THEN 2
                  ELSE Cardinality({i \in DOMAIN part : Crossed(p, part[i])}) % 2
\* The rims of the holes belong to the domain.
Within(p, parts) == Where(p, parts[1]) > 0 /\ \A k \in 2..Len(parts) : Where(p, parts[k]) # 1

\* ---- the nearest point of an edge, and its squared distance <<n, d>>
Near(p, e) ==
  LET u == Minus(e[2], e[1]) l == Dot(u, u) t == Dot(Minus(p, e[1]), u) IN
  IF l = 0 \/ t <= 0 THEN Append(e[1], 1)
  ELSE IF t >= l THEN Append(e[2], 1)
  ELSE Rat([k \in 1..2 |-> e[1][k] * l + t * u[k]], l)
Dist2(p, e) ==
  LET u == Minus(e[2], e[1]) l == Dot(u, u) t == Dot(Minus(p, e[1]), u) a == Minus(p, e[1]) b == Minus(p, e[2]) s == Side(e[1], e[2], p) IN
  IF l = 0 \/ t <= 0 THEN <<Dot(a, a), 1>> ELSE IF t >= l THEN <<Dot(b, b), 1>> ELSE <<s * s, l>>
LessR(x, y) == x[1] * y[2] < y[1] * x[2]
\* The set of nearest points of an outline.
Nearest(p, edges) ==
  LET D == [e \in edges |-> Dist2(p, e)]
      m == {e \in edges : \A f \in edges : ~LessR(D[f], D[e])}
  IN {Near(p, e) : e \in m}

\* ---- where a segment meets an edge that is not parallel to it ({} or one point)
Meet(s, e) ==
  LET u == Minus(s[2], s[1]) v == Minus(e[2], e[1]) d == Cross2(u, v) w == Minus(e[1], s[1])
      t == Sgn(d) * Cross2(w, v) q == Sgn(d) * Cross2(w, u) IN
  IF d # 0 /\ 0 <= t /\ t <= Abs(d) /\ 0 <= q /\ q <= Abs(d)
  THEN {Rat([k \in 1..2 |-> e[1][k] * Abs(d) + q * v[k]], Abs(d))} ELSE {}
Meets(s, edges) == UNION {Meet(s, e) : e \in edges}
\* What may be reported besides: the ends of the stretches they have in common.
Parallel(s, e) == s[1] # s[2] /\ Side(s[1], s[2], e[1]) = 0 /\ Side(s[1], s[2], e[2]) = 0
Ends(s, edges) == UNION {{Append(p, 1) : p \in {q \in {s[1], s[2], e[1], e[2]} : OnEdge(q, e) /\ OnEdge(q, s)}} : e \in {f \in edges : Parallel(s, f)}}

\* ---- hulls
\* The facets go once around all points, counter-clockwise.
Hull2(pts, facets, strict) ==
  /\ Len(facets) >= 3
  /\ \A i \in DOMAIN facets : facets[i][2] = facets[(i % Len(facets)) + 1][1] /\ facets[i][1] # facets[i][2]
  /\ Cardinality({f[1] : f \in Rng(facets)}) = Len(facets)
  /\ \A f \in Rng(facets) : f[1] \in pts /\ \A p \in pts : Side(f[1], f[2], p) >= 0
  /\ strict => \A i \in DOMAIN facets : Side(facets[i][1], facets[i][2], facets[(i % Len(facets)) + 1][2]) > 0
Flat2(pts) == \A a, b, c \in pts : Side(a, b, c) = 0
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
HullLine(pts, f) == /\ {f[1], f[2]} \subseteq pts
                    /\ \A p \in pts : OnEdge(p, f)
HullRight2(pts, facets, strict) == IF Flat2(pts) THEN Len(facets) = 1 /\ HullLine(pts, facets[1]) ELSE Hull2(pts, facets, strict)

NormalOf(f) == Cross3(Minus(f[2], f[1]), Minus(f[3], f[1]))
Height(f, p) == Dot(NormalOf(f), Minus(p, f[1]))
\* Triangles on given points, nothing above any of them, and closed.
Hull3(pts, facets) ==
  LET E == FoldLeft(LAMBDA s, f : s \o <<<<f[1], f[2]>>, <<f[2], f[3]>>, <<f[3], f[1]>>>>, <<>>, facets) IN
  /\ Len(facets) >= 4
  /\ \A f \in Rng(facets) : Rng(f) \subseteq pts /\ \A p \in pts : Height(f, p) <= 0
  /\ Cardinality(Rng(E)) = Len(E)
  /\ \A e \in Rng(E) : <<e[2], e[1]>> \in Rng(E)

\* ---- convex outlines: loops of corners, and polyhedra as facets (loops) seen from outside
EdgesOf(L) == {<<L[i], L[(i % Len(L)) + 1]>> : i \in DOMAIN L}
InLoop(p, L) == \A e \in EdgesOf(L) : Side(e[1], e[2], p) >= 0
StrictIn(p, L) == \A e \in EdgesOf(L) : Side(e[1], e[2], p) > 0
SegMeet(s, e) == Meet(s, e) # {} \/ (\E p \in {s[1], s[2]} : OnEdge(p, e)) \/ (\E p \in {e[1], e[2]} : OnEdge(p, s))
Touch2(A, B) == (\E p \in Rng(A) : InLoop(p, B)) \/ (\E p \in Rng(B) : InLoop(p, A)) \/ (\E s \in EdgesOf(A), e \in EdgesOf(B) : SegMeet(s, e))
Inside2(A, B) == \A p \in Rng(A) : StrictIn(p, B)
\* Separation by the lines of the edges of one or the other.
Apart2(A, B) == \E e \in EdgesOf(A) : \A p \in Rng(B) : Side(e[1], e[2], p) < 0

Corners3(F) == UNION {Rng(f) : f \in F}
Edges3(F) == UNION {{{f[i], f[(i % Len(f)) + 1]} : i \in DOMAIN f} : f \in F}
Dirs(F) == {LET a == CHOOSE x \in e : TRUE IN Minus(CHOOSE x \in e : x # a, a) : e \in Edges3(F)}
SplitBy(n, A, B) == LET a == {Dot(n, p) : p \in A} b == {Dot(n, p) : p \in B} IN Max(a) < Min(b) \/ Max(b) < Min(a)
Apart3(A, B) ==
  LET PA == Corners3(A) PB == Corners3(B) IN
  \/ \E f \in A \cup B : SplitBy(NormalOf(f), PA, PB)
  \/ \E u \in Dirs(A), v \in Dirs(B) : SplitBy(Cross3(u, v), PA, PB)
Inside3(A, B) == \A p \in Corners3(A) : \A f \in B : Height(f, p) < 0

\* ---- cells
CellArea2(L) == FoldLeft(LAMBDA s, e : s + Cross2(e[1], e[2]), 0, [i \in DOMAIN L |-> <<L[i], L[(i % Len(L)) + 1]>>])
CellMoment(L, k) == FoldLeft(LAMBDA s, e : s + Cross2(e[1], e[2]) * (e[1][k] + e[2][k]), 0, [i \in DOMAIN L |-> <<L[i], L[(i % Len(L)) + 1]>>])
\* Six times the volume, and 24 times the first moments, of a closed polyhedron.
Tets(F) == FoldLeft(LAMBDA s, f : s \o [i \in 1..(Len(f) - 2) |-> <<f[1], f[i + 1], f[i + 2]>>], <<>>, F)
Volume6(F) == FoldLeft(LAMBDA s, t : s + Dot(t[1], Cross3(t[2], t[3])), 0, Tets(F))
Moment24(F, k) == FoldLeft(LAMBDA s, t : s + Dot(t[1], Cross3(t[2], t[3])) * (t[1][k] + t[2][k] + t[3][k]), 0, Tets(F))
====
