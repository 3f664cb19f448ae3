---- MODULE GeometryModel ----
\* The answers of Geometry agree with independent definitions, for everything on
\* a small grid: parity of crossings with winding, the nearest point with a
\* search along the edge, the monotone chain with the definition of the hull,
\* separation by edges with having a place in common.
EXTENDS Geometry, TLC
C == INSTANCE Csg
CONSTANTS N, Ask, Broken
Places == {<<x, y>> : x, y \in 0..N}
Places3 == {<<x, y, z>> : x, y \in 0..1, z \in 0..N}
VARIABLES q, done
vars == <<q, done>>

Simple(L) == /\ \A i \in DOMAIN L : Side(L[i], L[(i % Len(L)) + 1], L[((i + 1) % Len(L)) + 1]) # 0
             /\ \A i, j \in DOMAIN L : (i + 1 < j /\ ~(i = 1 /\ j = Len(L))) => ~SegMeet(<<L[i], L[i + 1]>>, <<L[j], L[(j % Len(L)) + 1]>>)
Convex(L) == \A i \in DOMAIN L : Side(L[i], L[(i % Len(L)) + 1], L[((i + 1) % Len(L)) + 1]) > 0
Injective(L) == Cardinality(Rng(L)) = Len(L)
Tri == {L \in [1..3 -> Places] : Convex(L) /\ \A p \in Rng(L) : p = L[1] \/ Before(L[1], p)}
Tet == {F \in {<<a, b, c, d>> : a, b, c, d \in Places3} : F[1] = <<0, 0, 0>> /\ Height(<<F[1], F[2], F[3]>>, F[4]) < 0 /\ F[2] # F[3] /\ F[2][1] + F[2][3] > 0}
Shell(F) == {<<F[1], F[2], F[3]>>, <<F[2], F[1], F[4]>>, <<F[1], F[3], F[4]>>, <<F[3], F[2], F[4]>>}

Init == /\ done = FALSE
        /\ \/ Ask = "within" /\ \E L \in UNION {[1..k -> Places] : k \in 3..4} : q = L /\ Injective(L) /\ (\A p \in Rng(L) : p = L[1] \/ Before(L[1], p)) /\ Simple(L)
           \/ Ask = "near" /\ \E p, a, b \in Places : q = <<p, a, b>>
           \/ Ask = "meet" /\ \E a, b, c, d \in Places : q = <<a, b, c, d>> /\ a # b /\ c # d /\ Before(a, b)
           \/ Ask = "hull" /\ \E S \in kSubset(3, Places) \cup kSubset(4, Places) \cup kSubset(5, Places) : q = S
           \/ Ask = "convex" /\ \E A, B \in Tri : q = <<A, B>>
           \/ Ask = "convex3" /\ \E A \in {F \in Tet : F[4] = <<0, 1, 1>>} : \E B \in Tet, s \in {<<0, 0, 0>>, <<1, 0, -1>>, <<1, 1, 1>>} : q = <<A, [i \in 1..4 |-> [k \in 1..3 |-> B[i][k] + s[k]]]>>
Next == ~done /\ done' = TRUE /\ q' = q

\* parity and winding
InvWithin == Ask = "within" =>
  LET P == [i \in DOMAIN q |-> <<q[i], q[(i % Len(q)) + 1]>>]
      S == [i \in DOMAIN P |-> <<P[i][1][1], P[i][1][2], P[i][2][1], P[i][2][2]>>]
      Touched(p, e) == IF Broken THEN (Lo(e[1][2], e[2][2]) <= p[2] /\ p[2] <= Hi(e[1][2], e[2][2]) /\ Sgn(e[2][2] - e[1][2]) * Side(e[1], e[2], p) > 0) ELSE Crossed(p, e)
      In(p) == Cardinality({i \in DOMAIN P : Touched(p, P[i])}) % 2
  IN \A p \in {<<x, y>> : x, y \in -1..(N + 1)} : Where(p, P) # 2 => (In(p) = 1 <=> C!Wind2(S, p) # 0)

\* nearest by search
InvNear == Ask = "near" =>
  LET p == q[1] a == q[2] b == q[3] u == Minus(b, a) l == Dot(u, u)
      d == Dist2(p, <<a, b>>) n == Near(p, <<a, b>>)
      \* l * l * squared distance from the place k / l of the way
      Sq(k) == LET v == [j \in 1..2 |-> l * (p[j] - a[j]) - k * u[j]] IN Dot(v, v)
  IN IF l = 0 THEN d = <<Dot(Minus(p, a), Minus(p, a)), 1>>
     ELSE /\ \A k \in 0..l : Sq(k) * d[2] >= d[1] * l * l
          /\ \E k \in 0..l : Sq(k) * d[2] = d[1] * l * l /\ Rat([j \in 1..2 |-> a[j] * l + k * u[j]], l) = n

\* meeting points satisfy both line equations and lie between the ends; none is missed
InvMeet == Ask = "meet" =>
  LET s == <<q[1], q[2]>> e == <<q[3], q[4]>> M == Meet(s, e)
      Scaled(x, d) == [k \in 1..2 |-> x[k] * d]
      Opp == Sgn(Side(s[1], s[2], e[1])) * Sgn(Side(s[1], s[2], e[2])) <= 0 /\ Sgn(Side(e[1], e[2], s[1])) * Sgn(Side(e[1], e[2], s[2])) <= 0
      Par == Cross2(Minus(s[2], s[1]), Minus(e[2], e[1])) = 0
  IN /\ ~Par => (Opp <=> M # {})
     /\ \A m \in M : LET d == m[3] p == <<m[1], m[2]>> IN
          OnEdge(p, <<Scaled(s[1], d), Scaled(s[2], d)>>) /\ OnEdge(p, <<Scaled(e[1], d), Scaled(e[2], d)>>)

\* the monotone chain
RECURSIVE Push(_, _)
Push(st, p) == IF Len(st) >= 2 /\ (IF Broken THEN Side(st[Len(st) - 1], st[Len(st)], p) < 0 ELSE Side(st[Len(st) - 1], st[Len(st)], p) <= 0)
               THEN Push(Front(st), p) ELSE Append(st, p)
Chain(S) == LET L == SetToSortSeq(S, Before)
                low == FoldLeft(LAMBDA st, p : Push(st, p), <<>>, L)
                up == FoldLeft(LAMBDA st, p : Push(st, p), <<>>, Reverse(L))
            IN Front(low) \o Front(up)
InvHull == (Ask = "hull" /\ ~Flat2(q)) =>
  LET H == Chain(q) IN Hull2(q, [i \in DOMAIN H |-> <<H[i], H[(i % Len(H)) + 1]>>], TRUE)

\* separation
InvConvex == Ask = "convex" =>
  (Touch2(q[1], q[2]) <=> ~(Apart2(q[1], q[2]) \/ (~Broken /\ Apart2(q[2], q[1]))))
\* in space: a common place is a corner of one in the other, or on an edge of one and a facet of the other
In3(p, d, F) == \A f \in F : Dot(NormalOf(f), [k \in 1..3 |-> p[k] - d * f[1][k]]) <= 0
Pierce(e, f, F) ==   \* the edge meets the plane of the facet within the polyhedron
  LET h1 == Height(f, e[1]) h2 == Height(f, e[2]) IN
  h1 # h2 /\ h1 * h2 <= 0 /\
  LET d == Abs(h1 - h2) p == [k \in 1..3 |-> (Abs(h2) * e[1][k] + Abs(h1) * e[2][k])] IN In3(p, d, F)
Touch3(A, B) == \/ \E p \in Corners3(A) : In3(p, 1, B)
                \/ \E p \in Corners3(B) : In3(p, 1, A)
                \/ \E e \in Edges3(A) : \E f \in B : LET a == CHOOSE x \in e : TRUE IN Pierce(<<a, CHOOSE x \in e : x # a>>, f, B)
                \/ \E e \in Edges3(B) : \E f \in A : LET a == CHOOSE x \in e : TRUE IN Pierce(<<a, CHOOSE x \in e : x # a>>, f, A)
OnlyFaces(A, B) == \E f \in A \cup B : SplitBy(NormalOf(f), Corners3(A), Corners3(B))
InvConvex3 == Ask = "convex3" => LET A == Shell(q[1]) B == Shell(q[2]) IN
  Touch3(A, B) <=> ~(IF Broken THEN OnlyFaces(A, B) ELSE Apart3(A, B))
====
