------------------------------ MODULE QuantizeTrace ------------------------------
(* Recorded hash keys, quantised positions and look-ups.  Keys are hexadecimal    *)
(* strings; places that were returned are <<whole steps, thousandths>>.           *)
EXTENDS Quantize, Json, IOUtils, TLC
O == INSTANCE Objects
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, pc, st
vars == <<c, pc, st>>
R == Trace[c]
Init == c \in 1..Len(Trace) /\ pc = 0 /\ st = <<>>
Q == R.qs[pc]
N == R.qs[pc + 1]
Next == /\ pc < Len(R.qs) /\ pc' = pc + 1 /\ UNCHANGED c
        /\ st' = IF R.what = "map" /\ ~N.ask /\ N.got \in Allowed(st, N.p, R.tol)
                 THEN Stored(st, N.p, R.tol) ELSE st
Is(w) == pc > 0 /\ R.what = w

\* ---- hash keys
Top == R.top                       \* the highest bin of an axis of a key
\* At the very end of an axis the quotient may round either way.
BinsOf(q, k) == LET b == Bin(q.at[k], Top) IN IF q.at[k][2] = 0 /\ q.at[k][1] > 0 THEN {b, b - 1} ELSE {b}
InvBins == Is("hash") => \A k \in DOMAIN Q.at : Q.bins[k] \in BinsOf(Q, k)
InvBox == Is("hash") => (Q.outer <=> ~Q.inner)
\* The key's position is in the middle of the bin, or at the end of the axis, and
\* has the same key.
InvUnhash == Is("hash") =>
  /\ Q.again = Q.key \/ (Q.outer /\ Q.within)   \* a bin of the outer box may reach into the inner box
  /\ \A k \in DOMAIN Q.at :
       \/ Q.back[k][1] = Q.bins[k] /\ Q.back[k][2] \in 498..502
       \/ Q.back[k] = Q.end[k]
InvSameKey == Is("hash") => \A i \in 1..pc - 1 :
  LET P == R.qs[i] IN (P.key = Q.key <=> (P.outer = Q.outer /\ P.bins = Q.bins))
\* One key per group, in order of first appearance; the group's position is the
\* first member's.
InvUnique == Is("unique") => LET n == Len(Q.at) IN
  /\ Len(Q.map) = n
  /\ \A i, j \in 1..n : Q.map[i] = Q.map[j] <=> Bins(Q.at[i], Top) = Bins(Q.at[j], Top)
  /\ LET First == {i \in 1..n : \A j \in 1..i - 1 : Bins(Q.at[j], Top) # Bins(Q.at[i], Top)} IN
       /\ Len(Q.points) = Cardinality(First)
       /\ \A i \in First : Q.map[i] = Cardinality({j \in First : j < i}) /\ Q.points[Q.map[i] + 1] = Q.given[i]

\* ---- quantised coordinates: numbered from R.lowest, rounding down ("grid") or
\* to the nearest ("round").
Whole(q, k) == IF R.what = "grid" THEN q.at[k][1] ELSE Nearest(q.at[k])
InvQuantised == Is("grid") \/ Is("round") =>
  \A k \in DOMAIN Q.at : Q.ints[k] - R.lowest = Whole(Q, k)
\* Converting back gives the grid point, up to rounding.
InvDequantised == Is("grid") \/ Is("round") =>
  \A k \in DOMAIN Q.at : \/ Q.back[k][1] = Whole(Q, k) /\ Q.back[k][2] <= 2
                         \/ Q.back[k][1] = Whole(Q, k) - 1 /\ Q.back[k][2] >= 998
InvIndex == (Is("round") => Q.index = R.index) /\ (Is("centre") => Q.index = pc - 1)
             /\ (Is("grid") => Q.index = pc - 1 /\ Q.generator = Q.ints)
\* The box of a coordinate system holds all positions it was made for, and its
\* outline is that box.
InvSystem == Is("system") =>
  /\ \A k \in 1..R.dim : Q.holds[k]
  /\ Q.moved \* no position moved by more than half the resolution
  /\ LET box == [points |-> Q.corners, facets |-> Q.facets, holes |-> <<>>] IN
       IF R.dim = 2 THEN O!IsBox2(box, <<0, 0>>, <<1, 1>>) ELSE O!IsBox3(box, <<0, 0, 0>>, <<1, 1, 1>>)
\* The middle of a face: twice (times its nodes) the returned coordinates.
InvCentre == Is("centre") => \A k \in DOMAIN Q.got : LET n == Q.n IN Abs(n * Q.got[k] - Q.sum[k]) <= 2 * n

\* ---- tolerant look-up
InvLookup == R.what = "map" /\ pc < Len(R.qs) =>
  IF N.ask THEN N.had = Have(st, N.p, R.tol) ELSE N.got \in Allowed(st, N.p, R.tol)
==================================================================================
