------------------------------- MODULE Voronoi -------------------------------
(* What a tessellation of a set of generators must be, in integers.         *)
(*                                                                          *)
(* A request r:                                                             *)
(*   gens    sequence of <<x, y>>, grid units                               *)
(*   outer   vertices of the domain, counter-clockwise, grid units; <<>>    *)
(*           for an unbounded request                                       *)
(*   holes   sequence of vertex sequences, clockwise (domain on the left)   *)
(*   convex  TRUE when outer is convex and there is no hole                 *)
(*   S       mesh node coordinates are in 1/S grid units                    *)
(*   A       area arithmetic is done at S \div A per grid unit              *)
(*   samples probe points, in 1/Q grid units                                *)
(*   tolN, tolX, tolA  slack, in the units of the test concerned            *)
(* Every test below but areas and point location is linear in the node      *)
(* coordinates, so S can be close to the resolution of the implementation.  *)
EXTENDS PolyMesh, FiniteSetsExt, SequencesExt

Sq(p) == p[1] * p[1] + p[2] * p[2]
Cross(a, b, p) == (b[1] - a[1]) * (p[2] - a[2]) - (b[2] - a[2]) * (p[1] - a[1])
Nxt(s, i) == s[(i % Len(s)) + 1]
Prv(s, i) == s[((i + Len(s) - 2) % Len(s)) + 1]

\* Twice the signed area of a polygon, relative to its first vertex.
TwiceArea(P) ==
  LET o == P[1] IN
  SumSeq([i \in 1..Len(P) |-> Cross(o, P[i], Nxt(P, i))])

Coarse(p, A) == <<p[1] \div A, p[2] \div A>>
CoarsePoly(m, c, A) == LET P == CellPoly(m, c) IN [i \in DOMAIN P |-> Coarse(P[i], A)]

Facets(r) == {<<r.outer[i], Nxt(r.outer, i)>> : i \in DOMAIN r.outer}
             \cup UNION {{<<r.holes[h][i], Nxt(r.holes[h], i)>> : i \in DOMAIN r.holes[h]} : h \in DOMAIN r.holes}
Corners(r) == Rng(r.outer) \cup UNION {Rng(r.holes[h]) : h \in DOMAIN r.holes}

(* ---- one cell per generator, made of the points nearest to it ---------- *)

OneCellPerGenerator(m, r) == NCells(m) = Len(r.gens)

\* Slack of node v (scale S) towards generator j when it belongs to i:
\* 2 v.(gj - gi) - S (|gj|^2 - |gi|^2) <= 0 iff v is no nearer to j.
Excess(v, gi, gj, S) == 2 * (v[1] * (gj[1] - gi[1]) + v[2] * (gj[2] - gi[2])) - S * (Sq(gj) - Sq(gi))

NearestGenerator(m, r) ==
  \A c \in 1..NCells(m) : \A j \in 1..Len(m.cells[c]) :
    LET v == Node(m, From(m, m.cells[c][j])) IN
    \A k \in DOMAIN r.gens : k # c => Excess(v, r.gens[c], r.gens[k], r.S) <= r.tolN

\* A node between the cells of i and k is equally far from both.
SharedFacesBisect(m, r) ==
  \A f \in 1..NFaces(m) :
    Len(m.faceCells[f]) = 2 =>
      LET i == Id(m.faceCells[f][1]) + 1  k == Id(m.faceCells[f][2]) + 1 IN
      \A e \in 1..2 : Abs(Excess(Node(m, m.faces[f][e]), r.gens[i], r.gens[k], r.S)) <= r.tolN

\* Convex cells wind counter-clockwise ...
CellsConvex(m, r) ==
  \A c \in 1..NCells(m) :
    LET P == CoarsePoly(m, c, r.A) IN
    \A i \in DOMAIN P : Cross(P[i], Nxt(P, i), Nxt(P, (i % Len(P)) + 1)) >= -r.tolA
CellsPositive(m, r) ==
  \A c \in 1..NCells(m) : TwiceArea(CoarsePoly(m, c, r.A)) > 0

\* ... around their own generator.
HasOwnGenerator(m, r) ==
  \A c \in 1..NCells(m) :
    LET P == CoarsePoly(m, c, r.A) g == <<r.gens[c][1] * (r.S \div r.A), r.gens[c][2] * (r.S \div r.A)>> IN
    \A i \in DOMAIN P : Cross(P[i], Nxt(P, i), g) >= -r.tolA

(* ---- the cells tile the domain ----------------------------------------- *)

TotalArea(m, r) ==
  LET s == r.S \div r.A
      scaled(P) == [i \in DOMAIN P |-> <<P[i][1] * s, P[i][2] * s>>]
      want == TwiceArea(scaled(r.outer)) + SumSeq([h \in DOMAIN r.holes |-> TwiceArea(scaled(r.holes[h]))])
      got  == SumSeq([c \in 1..NCells(m) |-> TwiceArea(CoarsePoly(m, c, r.A))])
  IN Abs(want - got) <= r.tolT

\* Exact location of an integer point p against a polygon P (same scale).
OnSeg(a, b, p) == /\ Cross(a, b, p) = 0
                  /\ Min2(a[1], b[1]) <= p[1] /\ p[1] <= Max2(a[1], b[1])
                  /\ Min2(a[2], b[2]) <= p[2] /\ p[2] <= Max2(a[2], b[2])
OnPoly(P, p) == \E i \in DOMAIN P : OnSeg(P[i], Nxt(P, i), p)
\* Crossing parity of the ray from p towards +x.
RayHits(a, b, p) == /\ (a[2] > p[2]) # (b[2] > p[2])
                    /\ IF b[2] > a[2] THEN Cross(a, b, p) > 0 ELSE Cross(a, b, p) < 0
InPoly(P, p) == Cardinality({i \in DOMAIN P : RayHits(P[i], Nxt(P, i), p)}) % 2 = 1

ScalePoly(P, k) == [i \in DOMAIN P |-> <<P[i][1] * k, P[i][2] * k>>]
\* Is the probe q (scale Q) strictly inside the domain?
InDomain(r, q) ==
  /\ r.outer # <<>>
  /\ ~OnPoly(ScalePoly(r.outer, r.Q), q)
  /\ InPoly(ScalePoly(r.outer, r.Q), q)
  /\ \A h \in DOMAIN r.holes : LET H == ScalePoly(r.holes[h], r.Q) IN ~OnPoly(H, q) /\ ~InPoly(H, q)

\* Does the open segment p-q meet segment a-b (all exact, same scale)?
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Meets(p, q, a, b) ==
  \/ /\ Sgn(Cross(p, q, a)) * Sgn(Cross(p, q, b)) <= 0
     /\ Sgn(Cross(a, b, p)) * Sgn(Cross(a, b, q)) <= 0
     /\ ~(Cross(p, q, a) = 0 /\ Cross(p, q, b) = 0)
  \/ OnSeg(p, q, a) \/ OnSeg(p, q, b)

\* The generators nearest to probe q.
Dist2(q, g, Q) == Sq(<<q[1] - Q * g[1], q[2] - Q * g[2]>>)
NearestSet(r, q) == LET d == [k \in DOMAIN r.gens |-> Dist2(q, r.gens[k], r.Q)]
                    IN {k \in DOMAIN r.gens : \A j \in DOMAIN r.gens : d[k] <= d[j]}
Sees(r, q, g) == LET G == <<g[1] * r.Q, g[2] * r.Q>> IN
  \A f \in Facets(r) : ~Meets(q, G, <<f[1][1] * r.Q, f[1][2] * r.Q>>, <<f[2][1] * r.Q, f[2][2] * r.Q>>)

\* Location of probe q against a cell, at the area scale.  Probes within the
\* slack of a cell edge decide nothing.
ProbeAt(r, q) == LET k == (r.S \div r.A) \div r.Q IN <<q[1] * k, q[2] * k>>
NearEdge(a, b, p) ==
  LET l == Max2(Abs(b[1] - a[1]), Abs(b[2] - a[2])) IN
  /\ Abs(Cross(a, b, p)) <= 4 * l
  /\ Min2(a[1], b[1]) - 4 <= p[1] /\ p[1] <= Max2(a[1], b[1]) + 4
  /\ Min2(a[2], b[2]) - 4 <= p[2] /\ p[2] <= Max2(a[2], b[2]) + 4
NearPoly(P, p) == \E i \in DOMAIN P : NearEdge(P[i], Nxt(P, i), p)

ProbesOnce(m, r) ==
  LET polys == [c \in 1..NCells(m) |-> CoarsePoly(m, c, r.A)] IN
  \A i \in DOMAIN r.samples :
    LET q == r.samples[i]  p == ProbeAt(r, q) IN
    (InDomain(r, q) /\ \A c \in 1..NCells(m) : ~NearPoly(polys[c], p)) =>
      Cardinality({c \in 1..NCells(m) : InPoly(polys[c], p)}) = 1

ProbesOutside(m, r) ==
  LET polys == [c \in 1..NCells(m) |-> CoarsePoly(m, c, r.A)] IN
  \A i \in DOMAIN r.samples :
    LET q == r.samples[i]  p == ProbeAt(r, q) IN
    (~InDomain(r, q) /\ \A c \in 1..NCells(m) : ~NearPoly(polys[c], p)) =>
      \A c \in 1..NCells(m) : ~InPoly(polys[c], p)

\* A point that sees its (only) nearest generator is in that generator's cell.
ProbesNearest(m, r) ==
  LET polys == [c \in 1..NCells(m) |-> CoarsePoly(m, c, r.A)] IN
  \A i \in DOMAIN r.samples :
    LET q == r.samples[i]  p == ProbeAt(r, q)  near == NearestSet(r, q) IN
    (Cardinality(near) = 1 /\ (r.outer = <<>> \/ InDomain(r, q))) =>
      LET k == CHOOSE k \in near : TRUE IN
      (Sees(r, q, r.gens[k]) /\ ~NearPoly(polys[k], p)) => InPoly(polys[k], p)

(* ---- the boundary of the mesh is the boundary of the domain ------------ *)

\* Node v (scale S) on facet <<a, b>>, within the slack.
OnFacet(v, a, b, r) ==
  LET A0 == <<a[1] * r.S, a[2] * r.S>> d == <<b[1] - a[1], b[2] - a[2]>>
      w == <<v[1] - A0[1], v[2] - A0[2]>>
      t == w[1] * d[1] + w[2] * d[2]
  IN /\ Abs(d[1] * w[2] - d[2] * w[1]) <= r.tolX
     /\ -r.tolX <= t /\ t <= r.S * Sq(d) + r.tolX

\* Boundary face f, walked by its only cell, runs along facet <<a, b>> from a to b.
BFrom(m, f) == LET k == m.faceCells[f + 1][1] IN IF k < 0 THEN Face(m, f)[2] ELSE Face(m, f)[1]
BTo(m, f)   == LET k == m.faceCells[f + 1][1] IN IF k < 0 THEN Face(m, f)[1] ELSE Face(m, f)[2]
RunsAlong(m, f, a, b, r) == /\ OnFacet(Node(m, BFrom(m, f)), a, b, r)
                            /\ OnFacet(Node(m, BTo(m, f)), a, b, r)
Advance(m, f, a, b) == LET p == Node(m, BFrom(m, f)) q == Node(m, BTo(m, f)) IN
  (q[1] - p[1]) * (b[1] - a[1]) + (q[2] - p[2]) * (b[2] - a[2])

BoundaryFollowsDomain(m, r) ==
  /\ \A f \in BoundaryFaceSet(m) : \E fc \in Facets(r) : RunsAlong(m, f, fc[1], fc[2], r)
  /\ \A fc \in Facets(r) :
       LET on == {f \in BoundaryFaceSet(m) : RunsAlong(m, f, fc[1], fc[2], r)}
           tot == MapThenSumSet(LAMBDA f : Advance(m, f, fc[1], fc[2]), on)
       IN /\ \A f \in on : Advance(m, f, fc[1], fc[2]) >= -r.tolX
          /\ Abs(tot - r.S * Sq(<<fc[2][1] - fc[1][1], fc[2][2] - fc[1][2]>>)) <= r.tolX

\* cornerNodes[i] lists the mesh nodes that equal the i-th vertex of the
\* domain to the last bit.  A bisector through the vertex may leave two nodes there.
AllCorners(r) == r.outer \o FoldSeq(LAMBDA h, acc : acc \o h, <<>>, r.holes)
CornersExact(m, r) ==
  \A i \in DOMAIN r.cornerNodes :
    LET K == Rng(r.cornerNodes[i])
        q == AllCorners(r)[i]
        unique == Cardinality(NearestSet(r, <<q[1] * r.Q, q[2] * r.Q>>)) = 1
    IN /\ K # {} /\ K \subseteq Rng(m.bnodes)
       /\ unique => Cardinality(K) = 1

(* ---- everything -------------------------------------------------------- *)
VoronoiOK(m, r) == OneCellPerGenerator(m, r) /\ NearestGenerator(m, r) /\ SharedFacesBisect(m, r)
                   /\ CellsConvex(m, r) /\ CellsPositive(m, r) /\ HasOwnGenerator(m, r)
=============================================================================
