---- MODULE SimplifyTrace ----
\* Recorded simplifications.  A case has the loops (or the facets of the shells)
\* of the outline that was given, the boundary first and then its holes; what
\* came back; and what came back when that was simplified again.
EXTENDS Simplify, TLC, TLCExt, Json, IOUtils
W == INSTANCE Csg
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, pc
vars == <<c, pc>>
Case == Cases[c]
Init == c \in DOMAIN Cases /\ pc = 0
Next == pc < Len(Case.outs) /\ pc' = pc + 1 /\ c' = c
Now == Case.outs[pc]
Flat == Case.dim = 2

Rng(s) == {s[i] : i \in DOMAIN s}
Pairs(fs) == {<<f[1], f[2]>> : f \in Rng(fs)}
\* The parts (boundary and holes) are all there, in their order.
InvParts == pc > 0 => Len(Now.parts) = Len(Case.parts)
\* In the plane every part is exactly the loop of its corners, in the direction it had.
InvLoops == (pc > 0 /\ Flat /\ Len(Now.parts) = Len(Case.parts)) =>
  \A k \in DOMAIN Case.parts : /\ Pairs(Now.parts[k]) = Edges(Corners(Case.parts[k]))
                               /\ Len(Now.parts[k]) = Cardinality(Pairs(Now.parts[k]))
\* In space the facets demanded are there, and no others except in planes with holes.
InvFacets == (pc > 0 /\ ~Flat /\ Len(Now.parts) = Len(Case.parts)) =>
  \A k \in DOMAIN Case.parts :
    LET F == Case.parts[k] G == Now.parts[k] D == Demanded(F) fr == Free(F) IN
    /\ \A d \in D : \E g \in Rng(G) : SameLoop(d, g)
    /\ \A g \in Rng(G) : (\E d \in D : SameLoop(d, g)) \/ (\E i \in fr : Coplanar(F[i], g))
    /\ fr = {} => Len(G) = Cardinality(D)
\* The probes are on a finer grid.
Up(F) == [i \in DOMAIN F |-> [j \in DOMAIN F[i] |-> [m \in DOMAIN F[i][j] |-> Case.fine * F[i][j][m]]]]
\* It encloses the same places, in the same sense.
InvEncloses == (pc > 0 /\ ~Flat /\ Len(Now.parts) = Len(Case.parts)) =>
  \A k \in DOMAIN Case.parts : \A p \in Rng(Case.probes) : W!Wind3(Up(Now.parts[k]), p) = W!Wind3(Up(Case.parts[k]), p)
\* Every point is there once, and is used.
Used == UNION {UNION {Rng(f) : f \in Rng(Now.parts[k])} : k \in DOMAIN Now.parts}
InvPoints == pc > 0 => /\ Cardinality(Rng(Now.points)) = Len(Now.points)
                       /\ Rng(Now.points) = Used
\* What was given is as it was.
InvKept == pc > 0 => Now.kept
====
