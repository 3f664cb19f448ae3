---- MODULE CsgModel ----
\* Sessions of Boolean operations on solids made of the cells of a grid, and the
\* algorithm that does them on boundaries: clip the pieces of each boundary by
\* the other solid, with solids turned inside out in between.
EXTENDS Csg, TLC, Json
CONSTANTS NX, NY, Depth, Broken
Cells == (0..NX-1) \X (0..NY-1)
VARIABLES slots, hist
vars == <<slots, hist>>

Ops == {"union", "intersect", "subtract"}
Init == /\ \E A, B \in SUBSET Cells \ {{}} : slots = <<A, B>>
        /\ hist = <<>>
Do == \E op \in Ops, a, b \in DOMAIN slots :
        /\ Len(hist) < Depth
        /\ Apply(op, slots[a], slots[b]) # {}
        /\ slots' = Append(slots, Apply(op, slots[a], slots[b]))
        /\ hist' = Append(hist, <<op, a, b>>)
Next == Do
Emit == Len(hist) = Depth => PrintT("HIST " \o ToJson(<<SetToSeq(slots[1]), SetToSeq(slots[2]), hist>>))

\* ---- the laws
A == slots[1]
B == slots[2]
InvLaws ==
  /\ Cardinality(A \cup B) + Cardinality(A \cap B) = Cardinality(A) + Cardinality(B)
  /\ (A \ B) \cup (A \cap B) = A
  /\ A \ B = A \ (A \cap B)
  /\ \A s \in DOMAIN slots : s > 2 => slots[s] \subseteq A \cup B

\* ---- the algorithm
\* The boundary of a solid: unit edges <<x, y, d>> from the corner <<x, y>> in
\* the direction d (1 east, 2 north, 3 west, 4 south), with the solid on the left.
Edge(c) == {<<c[1], c[2], 1>>, <<c[1] + 1, c[2], 2>>, <<c[1] + 1, c[2] + 1, 3>>, <<c[1], c[2] + 1, 4>>}
Flip(e) == CASE e[3] = 1 -> <<e[1] + 1, e[2], 3>> [] e[3] = 2 -> <<e[1], e[2] + 1, 4>>
             [] e[3] = 3 -> <<e[1] - 1, e[2], 1>> [] e[3] = 4 -> <<e[1], e[2] - 1, 2>>
Bound(S) == LET E == UNION {Edge(c) : c \in S} IN {e \in E : Flip(e) \notin E}
\* A solid turned inside out is known by the cells outside of it.
Solid(S, inv) == [s |-> S, inv |-> inv]
LeftIn(e, X) == ((\E c \in X.s : e \in Edge(c)) /\ ~X.inv) \/ ((~\E c \in X.s : e \in Edge(c)) /\ X.inv)
RightIn(e, X) == LeftIn(Flip(e), X)
\* An edge is inside X when there is X on both sides; on its boundary, it is
\* kept when it runs the way the boundary of X runs.
ClipTo(E, X) == {e \in E : ~((LeftIn(e, X) /\ RightIn(e, X)) \/ (~LeftIn(e, X) /\ RightIn(e, X)))}
FlipAll(E) == {Flip(e) : e \in E}

\* The results are the pieces left of P and those left of Q; none may be in both.
Union(P, Q) ==
  LET a1 == ClipTo(Bound(P), Solid(Q, FALSE))
      b1 == ClipTo(Bound(Q), Solid(P, FALSE))
      b2 == FlipAll(ClipTo(FlipAll(b1), Solid(P, FALSE)))
  IN <<a1, IF Broken THEN b1 ELSE b2>>
Subtract(P, Q) ==
  LET a0 == FlipAll(Bound(P))
      a1 == ClipTo(a0, Solid(Q, FALSE))
      b1 == ClipTo(Bound(Q), Solid(P, TRUE))
      b2 == FlipAll(ClipTo(FlipAll(b1), Solid(P, TRUE)))
  IN <<FlipAll(a1), FlipAll(b2)>>
Intersect(P, Q) ==
  LET a0 == FlipAll(Bound(P))
      b1 == FlipAll(ClipTo(Bound(Q), Solid(P, TRUE)))
      a1 == ClipTo(a0, Solid(Q, TRUE))
      b2 == ClipTo(b1, Solid(P, TRUE))
  IN <<FlipAll(a1), FlipAll(b2)>>
Is(r, E) == r[1] \cup r[2] = E /\ r[1] \cap r[2] = {}
InvAlgorithm ==
  hist = <<>> => /\ Is(Union(A, B), Bound(A \cup B))
                 /\ Is(Subtract(A, B), Bound(A \ B))
                 /\ Is(Intersect(A, B), Bound(A \cap B))
====
