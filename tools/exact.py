"""Exact (rational) planar geometry used to choose inputs, never to judge outputs:
it classifies a request by how the Voronoi cells meet the domain."""
from fractions import Fraction as F


def cell(gens, i, lo, hi):
    """Voronoi cell of generator i inside the rectangle, as a list of rational vertices (CCW)."""
    P = [(F(lo[0]), F(lo[1])), (F(hi[0]), F(lo[1])), (F(hi[0]), F(hi[1])), (F(lo[0]), F(hi[1]))]
    g = gens[i]
    for k, h in enumerate(gens):
        if k == i:
            continue
        a, b = 2 * (h[0] - g[0]), 2 * (h[1] - g[1])
        c = h[0] * h[0] + h[1] * h[1] - g[0] * g[0] - g[1] * g[1]
        out, n = [], len(P)
        for j in range(n):
            p, q = P[j], P[(j + 1) % n]
            fp, fq = a * p[0] + b * p[1] - c, a * q[0] + b * q[1] - c
            if fp <= 0:
                out.append(p)
            if (fp < 0 < fq) or (fq < 0 < fp):
                t = fp / (fp - fq)
                out.append((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])))
        P = out
        if len(P) < 3:
            return []
    return P


def _cross(a, b, p):
    return (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])


def _side(loops, p):
    """1 strictly inside the region bounded by the loops (parity), 0 on an edge, -1 outside"""
    c = False
    for P in loops:
        n = len(P)
        for i in range(n):
            a, b = P[i], P[(i + 1) % n]
            k = _cross(a, b, p)
            if k == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1]):
                return 0
            if (a[1] > p[1]) != (b[1] > p[1]):
                if (b[1] > a[1] and k > 0) or (b[1] <= a[1] and k < 0):
                    c = not c
    return 1 if c else -1


class Degenerate(Exception):
    pass


def _cut(A, B):
    """Edges of loops A cut where they meet edges of loops B.  Raises on collinear overlap."""
    out = []
    for P in A:
        n = len(P)
        for i in range(n):
            a, b = P[i], P[(i + 1) % n]
            ts = {F(0), F(1)}
            for R in B:
                m = len(R)
                for j in range(m):
                    c, d = R[j], R[(j + 1) % m]
                    den = (b[0] - a[0]) * (d[1] - c[1]) - (b[1] - a[1]) * (d[0] - c[0])
                    if den == 0:
                        if _cross(a, b, c) == 0:
                            # collinear: overlap?
                            key = 0 if a[0] != b[0] else 1
                            l1, h1 = sorted((a[key], b[key])); l2, h2 = sorted((c[key], d[key]))
                            if max(l1, l2) <= min(h1, h2):
                                raise Degenerate()
                        continue
                    t = ((c[0] - a[0]) * (d[1] - c[1]) - (c[1] - a[1]) * (d[0] - c[0])) / F(den)
                    u = ((c[0] - a[0]) * (b[1] - a[1]) - (c[1] - a[1]) * (b[0] - a[0])) / F(den)
                    if 0 <= t <= 1 and 0 <= u <= 1:
                        if t in (0, 1) or u in (0, 1):
                            raise Degenerate()
                        ts.add(t)
            ts = sorted(ts)
            for t0, t1 in zip(ts, ts[1:]):
                out.append(((a[0] + t0 * (b[0] - a[0]), a[1] + t0 * (b[1] - a[1])),
                            (a[0] + t1 * (b[0] - a[0]), a[1] + t1 * (b[1] - a[1]))))
    return out


def outline(C, loops):
    """The directed edges of convex cell C within the region of the loops."""
    keep = []
    for e in _cut([C], loops):
        m = ((e[0][0] + e[1][0]) / 2, (e[0][1] + e[1][1]) / 2)
        s = _side(loops, m)
        if s == 0:
            raise Degenerate()
        if s > 0:
            keep.append(e)
    for e in _cut(loops, [C]):
        m = ((e[0][0] + e[1][0]) / 2, (e[0][1] + e[1][1]) / 2)
        s = _side([C], m)
        if s == 0:
            raise Degenerate()
        if s > 0:
            keep.append(e)
    return keep


def pieces(C, loops):
    """(number of pieces, number of holes) of convex cell C within the region of the loops."""
    keep = outline(C, loops)
    nxt = {}
    for a, b in keep:
        if a in nxt:
            raise Degenerate()
        nxt[a] = b
    seen, outer, holes = set(), 0, 0
    for a in list(nxt):
        if a in seen:
            continue
        loop, p = [], a
        while p not in seen:
            seen.add(p)
            loop.append(p)
            p = nxt.get(p)
            if p is None:
                raise Degenerate()
        ar = sum(loop[i][0] * loop[(i + 1) % len(loop)][1] - loop[(i + 1) % len(loop)][0] * loop[i][1] for i in range(len(loop)))
        if ar > 0:
            outer += 1
        else:
            holes += 1
    return outer, holes


def classify(gens, outer, holes):
    """'plain': every cell meets the domain in one piece without a hole;
    'orphans': some cell is cut apart; 'ring': some cell surrounds a hole;
    'touch': something touches without crossing (not decided)."""
    lo = (min(p[0] for p in outer) - 1, min(p[1] for p in outer) - 1)
    hi = (max(p[0] for p in outer) + 1, max(p[1] for p in outer) + 1)
    loops = [[(F(x), F(y)) for x, y in P] for P in [outer] + list(holes)]
    kind = "plain"
    try:
        for i in range(len(gens)):
            o, h = pieces(cell(gens, i, lo, hi), loops)
            if h:
                return "ring"
            if o != 1:
                kind = "orphans"
    except Degenerate:
        return "touch"
    return kind


def general(gens, outer, holes, eps):
    """Are the generators in general position: three cells at most in a point, two on the
    outline, one in a corner, and no side of a cell shorter than eps?"""
    lo = (min(p[0] for p in outer) - 1, min(p[1] for p in outer) - 1)
    hi = (max(p[0] for p in outer) + 1, max(p[1] for p in outer) + 1)
    loops = [[(F(x), F(y)) for x, y in P] for P in [outer] + list(holes)]
    corners = {p for P in loops for p in P}
    at = {}
    try:
        for i in range(len(gens)):
            C = cell(gens, i, lo, hi)
            for a, b in outline(C, loops):
                if max(abs(a[0] - b[0]), abs(a[1] - b[1])) < eps:
                    return False
                at.setdefault(a, set()).add(i)
    except Degenerate:
        return False
    for p, cs in at.items():
        if len(cs) > (1 if p in corners else 2 if _side(loops, p) == 0 else 3):
            return False
    return True
