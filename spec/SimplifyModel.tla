---- MODULE SimplifyModel ----
\* Loops grown from their corners by subdividing sides, repeating points and
\* starting elsewhere; and the walk that simplifies them again: find an edge that
\* is not straight on from the one before it, then join runs of straight edges.
EXTENDS Simplify, TLC, Json
CONSTANTS N, MaxLen, Broken
Places == {<<2 * x, 2 * y>> : x, y \in 0..N}
VARIABLES loop, orig
vars == <<loop, orig>>

Side(a, b, p) == CrossV(Sub(b, a), Sub(p, a))[1]
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a < b THEN b ELSE a
BoxesMeet(a, b, c, d) == \A k \in {1, 2} : Hi(a[k], b[k]) >= Lo(c[k], d[k]) /\ Hi(c[k], d[k]) >= Lo(a[k], b[k])
Meet(a, b, c, d) == BoxesMeet(a, b, c, d) /\ Sgn(Side(a, b, c)) * Sgn(Side(a, b, d)) <= 0 /\ Sgn(Side(c, d, a)) * Sgn(Side(c, d, b)) <= 0
Simple(L) == /\ \A i, j \in DOMAIN L : i # j => L[i] # L[j]
             /\ \A i \in DOMAIN L : ~Straight(Prv(L, i), L[i], Nxt(L, i))
             /\ \A i, j \in DOMAIN L : (i + 1 < j /\ ~(i = 1 /\ j = Len(L))) => ~Meet(L[i], Nxt(L, i), L[j], Nxt(L, j))
Init == \E n \in {3, 4} : \E L \in [1..n -> Places] : Simple(L) /\ orig = L /\ loop = L

Mid(a, b) == [k \in 1..2 |-> (a[k] + b[k]) \div 2]
Subdivide == \E i \in DOMAIN loop :
               LET a == loop[i] b == Nxt(loop, i) IN
               /\ (a[1] + b[1]) % 2 = 0 /\ (a[2] + b[2]) % 2 = 0 /\ Mid(a, b) # a /\ Mid(a, b) # b
               /\ loop' = InsertAt(loop, i + 1, Mid(a, b))
Turn == loop' = Append(Tail(loop), Head(loop))
Next == /\ orig' = orig
        /\ \/ (Len(loop) < MaxLen /\ Subdivide)
           \/ Turn

\* ---- the walk
Edge(L, i) == <<L[i], Nxt(L, i)>>
At(E, i) == E[((i - 1) % Len(E)) + 1]
Coll(a, b, c) == Zero(CrossV(Sub(b, a), Sub(c, a)))
Start(E) == IF Broken THEN 1
            ELSE CHOOSE i \in DOMAIN E : ~Coll(E[i][1], E[i][2], At(E, i + Len(E) - 1)[1])
                                         /\ \A j \in 1..(i - 1) : Coll(E[j][1], E[j][2], At(E, j + Len(E) - 1)[1])
RECURSIVE Run(_, _, _)
Run(E, i, n) == IF n < Len(E) /\ Coll(At(E, i)[1], At(E, i)[2], At(E, i + n + 1)[2]) THEN Run(E, i, n + 1) ELSE n
RECURSIVE Walk(_, _, _)
Walk(E, s, w) == IF w >= Len(E) THEN {}
                 ELSE LET r == Run(E, s + w, 0) IN {<<At(E, s + w)[1], At(E, s + w + r)[2]>>} \cup Walk(E, s, w + r + 1)
Walked(L) == LET E == [i \in DOMAIN L |-> Edge(L, i)] IN Walk(E, Start(E), 0)

InvCorners == SameLoop(Corners(loop), orig)
InvWalk == Walked(loop) = Edges(orig)
InvAgain == Corners(Corners(loop)) = Corners(loop)
Emit == Len(loop) = MaxLen => PrintT("LOOP " \o ToJson(loop))
====
