-------------------------------- MODULE Quantize --------------------------------
(* Positions on a grid of steps.  A place on an axis is a pair <<m, f>>: m whole   *)
(* steps and f eighths of a step above the low end.                               *)
EXTENDS Integers, Sequences, FiniteSets

Min2(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
\* The bin of a place when bins are numbered from 0 to top.
Bin(p, top) == Min2(p[1], top)
\* The grid point nearest to a place (not half way between two).
Nearest(p) == IF p[2] < 4 THEN p[1] ELSE p[1] + 1
Bins(P, top) == [k \in DOMAIN P |-> Bin(P[k], top)]

\* Keys: w bits per axis, axis 1 lowest, and a flag for the outer box on top.
RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 2 * Pow(n - 1)
RECURSIVE Pack(_, _, _)
Pack(b, k, w) == IF k > Len(b) THEN 0 ELSE b[k] * Pow(w * (k - 1)) + Pack(b, k + 1, w)
Flag(D, w) == Pow(D * w)
Key(outer, b, w) == Pack(b, 1, w) + (IF outer THEN Flag(Len(b), w) ELSE 0)
Field(key, k, w) == (key \div Pow(w * (k - 1))) % Pow(w)
Unpack(key, D, w) == [outer |-> key >= Flag(D, w), bins |-> [k \in 1..D |-> Field(key, k, w)]]

\* A set of whole positions with a tolerance: the stored positions in the order
\* of their numbers (from 0).
Close(a, b, tol) == \A k \in DOMAIN a : Abs(a[k] - b[k]) <= tol
Matches(st, p, tol) == {i \in DOMAIN st : Close(st[i], p, tol)}
Have(st, p, tol) == Matches(st, p, tol) # {}
\* The number that a look-up may give, and what is stored afterwards.
Allowed(st, p, tol) == IF Have(st, p, tol) THEN {i - 1 : i \in Matches(st, p, tol)} ELSE {Len(st)}
Stored(st, p, tol) == IF Have(st, p, tol) THEN st ELSE Append(st, p)
=================================================================================
