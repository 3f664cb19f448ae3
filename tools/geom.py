"""Integer planar inputs for the tessellation checks, their placement in the plane,
and the projection of what the code returns back onto the integer frame."""
import math


def cross(a, b, p):
    return (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])


def area2(P):
    return sum(P[i][0] * P[(i + 1) % len(P)][1] - P[(i + 1) % len(P)][0] * P[i][1] for i in range(len(P)))


def on_seg(a, b, p):
    return cross(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def in_poly(P, p):
    """1 inside, 0 on the edge, -1 outside"""
    n = len(P)
    for i in range(n):
        if on_seg(P[i], P[(i + 1) % n], p):
            return 0
    c = False
    for i in range(n):
        a, b = P[i], P[(i + 1) % n]
        if (a[1] > p[1]) != (b[1] > p[1]):
            k = cross(a, b, p)
            if (b[1] > a[1] and k > 0) or (b[1] <= a[1] and k < 0):
                c = not c
    return 1 if c else -1


def hull(pts):
    pts = sorted(set(pts))
    if len(pts) < 3:
        return pts
    def half(ps):
        h = []
        for p in ps:
            while len(h) >= 2 and cross(h[-2], h[-1], p) <= 0:
                h.pop()
            h.append(p)
        return h[:-1]
    return half(pts) + half(pts[::-1])


class Placement:
    """x -> origin + s R(theta) x, in doubles; and back, scaled and rounded."""
    def __init__(self, s=1.0, ox=0.0, oy=0.0, theta=0.0):
        self.s, self.ox, self.oy = s, ox, oy
        self.c, self.n = (1.0, 0.0) if theta == 0.0 else (math.cos(theta), math.sin(theta))

    def put(self, p):
        x, y = p
        if self.n == 0.0:
            return (self.ox + self.s * x, self.oy + self.s * y)
        return (self.ox + self.s * (self.c * x - self.n * y), self.oy + self.s * (self.n * x + self.c * y))

    def back(self, X, Y, S):
        u, v = (X - self.ox) / self.s, (Y - self.oy) / self.s
        if self.n != 0.0:
            u, v = self.c * u + self.n * v, -self.n * u + self.c * v
        return [int(round(u * S)), int(round(v * S))]

    def flat(self, pts):
        out = []
        for p in pts:
            out += list(self.put(p))
        return out

    def desc(self):
        return dict(s=self.s, ox=self.ox, oy=self.oy, cos=self.c, sin=self.n)


def placements(r, n):
    """A few placements: exact, shifted, scaled, rotated."""
    out = [Placement()]
    for _ in range(n - 1):
        k = r.randrange(5)
        s = r.choice([1.0, 0.125, 3.7, 1e-3, 1234.5])
        if k == 0:
            out.append(Placement(s))
        elif k == 1:
            out.append(Placement(s, r.choice([-8, 5.25, -0.3]) * s, r.choice([2.0, -11.7]) * s))
        else:
            out.append(Placement(s, r.choice([0.0, -7.3]) * s, r.choice([0.0, 3.1]) * s, r.choice([0.3, 0.7853981633974483, 1.1, 2.5, -0.61])))
    return out


def toks(xs):
    return " ".join(repr(float(x)) for x in xs)


def rl(xs):
    return "%d %s" % (len(xs), toks(xs))


def plc_toks(nout, holes):
    """PLC text: outer loop over vertices 0..nout-1, then holes over the following ones."""
    s = [str(nout)] + ["2 %d %d" % (i, (i + 1) % nout) for i in range(nout)]
    s.append(str(len(holes)))
    b = nout
    for h in holes:
        s.append(str(len(h)))
        s += ["2 %d %d" % (b + i, b + (i + 1) % len(h)) for i in range(len(h))]
        b += len(h)
    return " ".join(s)


class Domain:
    def __init__(self, name, outer, holes=(), kind=None):
        self.name, self.outer, self.holes = name, [tuple(p) for p in outer], [[tuple(p) for p in h] for h in holes]
        assert area2(self.outer) > 0
        for h in self.holes:
            assert area2(h) < 0
        n = len(self.outer)
        self.convex = not self.holes and all(cross(self.outer[i], self.outer[(i + 1) % n], self.outer[(i + 2) % n]) > 0 for i in range(n))
        self.lo = (min(p[0] for p in self.outer), min(p[1] for p in self.outer))
        self.hi = (max(p[0] for p in self.outer), max(p[1] for p in self.outer))

    def inside(self, p):
        if in_poly(self.outer, p) <= 0:
            return False
        return all(in_poly(h, p) < 0 for h in self.holes)

    def points(self):
        return [(x, y) for x in range(self.lo[0], self.hi[0] + 1) for y in range(self.lo[1], self.hi[1] + 1) if self.inside((x, y))]


BOX16 = Domain("box16", [(0, 0), (16, 0), (16, 16), (0, 16)])
BOXR = Domain("box12x5", [(0, 0), (12, 0), (12, 5), (0, 5)])
TRI = Domain("triangle", [(0, 0), (16, 2), (5, 15)])
HEXA = Domain("hexagon", [(4, 0), (12, 1), (16, 8), (11, 15), (3, 14), (0, 7)])
ELL = Domain("ell", [(0, 0), (16, 0), (16, 7), (7, 7), (7, 16), (0, 16)])
UU = Domain("u", [(0, 0), (15, 0), (15, 16), (10, 16), (10, 5), (5, 5), (5, 16), (0, 16)])
STAR = Domain("star", [(8, 0), (10, 6), (16, 8), (10, 10), (8, 16), (6, 10), (0, 8), (6, 6)])
CHEV = Domain("chevron", [(0, 0), (8, 7), (16, 0), (16, 9), (8, 16), (0, 9)])
HOLE1 = Domain("hole", [(0, 0), (16, 0), (16, 16), (0, 16)], [[(5, 5), (5, 11), (11, 11), (11, 5)]])
HOLE2 = Domain("holes", [(0, 0), (16, 0), (16, 16), (0, 16)], [[(2, 3), (2, 7), (7, 7), (7, 3)], [(9, 9), (10, 14), (14, 11)]])
CONVEX = [BOX16, BOXR, TRI, HEXA]
NONCONVEX = [ELL, UU, STAR, CHEV]
HOLED = [HOLE1, HOLE2]


def mesh_of(rec, pl, S):
    m = {"nodes": [pl.back(rec["nodes"][2 * i], rec["nodes"][2 * i + 1], S) for i in range(len(rec["nodes"]) // 2)],
         "faces": rec["faces"], "cells": rec["cells"], "faceCells": rec["faceCells"],
         "bnodes": rec["bnodes"], "bfaces": rec["bfaces"]}
    return m


def finite(rec):
    return not any(isinstance(x, str) or abs(x) > 1e12 for x in rec["nodes"])


def exact_nodes(rec, X, Y):
    n = rec["nodes"]
    return [i for i in range(len(n) // 2) if n[2 * i] == X and n[2 * i + 1] == Y]


def probes(r, dom, n, Q, lo=None, hi=None):
    lo, hi = lo or dom.lo, hi or dom.hi
    return [[r.randrange(lo[0] * Q, hi[0] * Q + 1), r.randrange(lo[1] * Q, hi[1] * Q + 1)] for _ in range(n)]


Q = 4
S_B, A_B = 1 << 19, 1 << 9        # bounded: nodes at 2^-19, areas at 2^-10
S_U, A_U = 1 << 17, 1 << 9        # unbounded: nodes may be far away


def request(gens, dom, samples):
    b = dom is not None
    S, A = (S_B, A_B) if b else (S_U, A_U)
    per = 0
    if b:
        for P in [dom.outer] + dom.holes:
            per += sum(math.hypot(P[i][0] - P[(i + 1) % len(P)][0], P[i][1] - P[(i + 1) % len(P)][1]) for i in range(len(P)))
    return {"gens": [list(g) for g in gens], "outer": [list(p) for p in dom.outer] if b else [],
            "holes": [[list(p) for p in h] for h in dom.holes] if b else [],
            "convex": dom.convex if b else True, "S": S, "A": A, "Q": Q, "samples": samples,
            "tolN": 512, "tolX": 256, "tolA": 80 * (S // A) if b else 400 * (S // A), "tolT": int(4 * per * (S // A)) + 64,
            "cornerNodes": []}
