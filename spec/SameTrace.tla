------------------------------- MODULE SameTrace -------------------------------
(* Two statements of one request: the generators in another order, or the same *)
(* domain stated another way.  Cell i of the first reply is cell perm[i] of    *)
(* the second.                                                                 *)
EXTENDS PolyMesh, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, pc
Init == c \in 1..Len(Trace) /\ pc = "requested"
Next == pc = "requested" /\ pc' = "returned" /\ UNCHANGED c
R == Trace[c]
Ret == pc = "returned"
Close(p, q) == Abs(p[1] - q[1]) <= R.tol /\ Abs(p[2] - q[2]) <= R.tol
Covers(P, Q) == \A i \in DOMAIN P : \E j \in DOMAIN Q : Close(P[i], Q[j])
InvCount == Ret => Len(R.a.cells) = Len(R.b.cells) /\ Len(R.a.cells) = Len(R.perm)
InvCells == (Ret /\ Len(R.a.cells) = Len(R.b.cells) /\ Len(R.a.cells) = Len(R.perm)) =>
  \A k \in DOMAIN R.perm :
    LET P == CellPoly(R.a, k) Q == CellPoly(R.b, R.perm[k]) IN Covers(P, Q) /\ Covers(Q, P)
================================================================================
