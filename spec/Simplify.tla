---- MODULE Simplify ----
\* What simplifying an outline means: repeated points become one, straight
\* corners and the seams between coplanar facets go, and nothing else changes.
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions

Nxt(L, i) == L[(i % Len(L)) + 1]
Prv(L, i) == L[IF i = 1 THEN Len(L) ELSE i - 1]
Zero(v) == \A k \in DOMAIN v : v[k] = 0
Sub(a, b) == [k \in DOMAIN a |-> a[k] - b[k]]
Dot(a, b) == IF Len(a) = 2 THEN a[1] * b[1] + a[2] * b[2] ELSE a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
CrossV(a, b) == IF Len(a) = 2 THEN <<a[1] * b[2] - a[2] * b[1]>>
                ELSE <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Straight(a, b, c) == Zero(CrossV(Sub(b, a), Sub(c, b)))

\* A loop is a cyclic sequence of places.
RECURSIVE Pick(_, _, _)
Pick(L, keep, i) == IF i > Len(L) THEN <<>> ELSE (IF i \in keep THEN <<L[i]>> ELSE <<>>) \o Pick(L, keep, i + 1)
Corners(L) == LET D == Pick(L, {i \in DOMAIN L : L[i] # Prv(L, i)}, 1)
              IN Pick(D, {i \in DOMAIN D : ~Straight(Prv(D, i), D[i], Nxt(D, i))}, 1)
Edges(L) == {<<L[i], Nxt(L, i)>> : i \in DOMAIN L}
SameLoop(A, B) == Len(A) = Len(B) /\ \E k \in DOMAIN A : \A i \in DOMAIN A : A[i] = B[((i + k - 2) % Len(A)) + 1]

\* ---- facets in space: cyclic sequences of places
Normal(f) ==
  LET C(i) == CrossV(Sub(f[i], f[1]), Sub(f[i + 1], f[1]))
      Add(a, b) == [k \in 1..3 |-> a[k] + b[k]]
  IN FoldLeft(LAMBDA n, i : Add(n, C(i)), <<0, 0, 0>>, [i \in 1..(Len(f) - 2) |-> i + 1])
\* Facets in the same plane, facing the same way.
Coplanar(f, g) == LET n == Normal(f) m == Normal(g)
                  IN Zero(CrossV(n, m)) /\ Dot(n, m) > 0 /\ Dot(n, Sub(g[1], f[1])) = 0
Touch(f, g) == \E e \in Edges(f) : <<e[2], e[1]>> \in Edges(g)
\* The facets that can be reached from those of S over seams.
RECURSIVE Grow(_, _, _)
Grow(F, S, new) == LET more == {j \in DOMAIN F \ S : \E i \in new : Coplanar(F[i], F[j]) /\ Touch(F[i], F[j])}
                   IN IF more = {} THEN S ELSE Grow(F, S \cup more, more)
RECURSIVE Groups(_, _)
Groups(F, left) == IF left = {} THEN {}
                   ELSE LET i == CHOOSE x \in left : \A y \in left : x <= y
                            g == Grow(F, {i}, {i})
                        IN {g} \cup Groups(F, left \ g)
Rim(F, g) == LET E == UNION {Edges(F[i]) : i \in g} IN {e \in E : <<e[2], e[1]>> \notin E}
\* The rim as a loop, when it is one (otherwise the part around its first place).
RECURSIVE Chain(_, _)
Chain(R, c) == LET n == {e \in R : e[1] = Last(c)}
               IN IF Cardinality(n) # 1 THEN c
                  ELSE LET p == (CHOOSE e \in n : TRUE)[2] IN IF p = c[1] \/ Len(c) > Cardinality(R) THEN c ELSE Chain(R, Append(c, p))
OneLoop(R) == /\ \A e, f \in R : e[1] = f[1] => e = f
              /\ Len(Chain(R, <<(CHOOSE e \in R : TRUE)[1]>>)) = Cardinality(R)
Loop(R) == Chain(R, <<(CHOOSE e \in R : TRUE)[1]>>)

\* The facets a simplified surface must have.  Where a group of coplanar facets
\* goes around a hole it has no one facet; its own facets may stay as they are.
Demanded(F) == {Corners(Loop(Rim(F, g))) : g \in {h \in Groups(F, DOMAIN F) : OneLoop(Rim(F, h))}}
Free(F) == UNION {h \in Groups(F, DOMAIN F) : ~OneLoop(Rim(F, h))}
====
