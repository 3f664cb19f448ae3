"""Integer solids and outlines for the checks of the geometric operations."""
from geom import cross, area2, on_seg, in_poly, hull


# ---- unions of unit cells -------------------------------------------------
def cell_loops(S):
    """Boundary loops of a set of cells, the cells on the left; pieces that only
    share a corner get loops of their own; no vertex inside a straight side."""
    out = {}
    for (x, y) in sorted(S):
        if (x, y - 1) not in S: out.setdefault((x, y), []).append((x + 1, y))
        if (x + 1, y) not in S: out.setdefault((x + 1, y), []).append((x + 1, y + 1))
        if (x, y + 1) not in S: out.setdefault((x + 1, y + 1), []).append((x, y + 1))
        if (x - 1, y) not in S: out.setdefault((x, y + 1), []).append((x, y))
    L = []
    while out:
        a = min(out)
        cur, prev, loop = a, None, [a]
        while True:
            c = out[cur]
            nx = c[0]
            if len(c) > 1 and prev is not None:
                dx, dy = cur[0] - prev[0], cur[1] - prev[1]
                left = [b for b in c if (b[0] - cur[0], b[1] - cur[1]) == (-dy, dx)]
                nx = left[0] if left else c[0]
            c.remove(nx)
            if not c:
                del out[cur]
            prev, cur = cur, nx
            if cur == a:
                break
            loop.append(cur)
        n = len(loop)
        L.append([loop[i] for i in range(n) if cross(loop[i - 1], loop[i], loop[(i + 1) % n]) != 0])
    return L


def no_contact(S):
    """No two cells that only share a corner."""
    for (x, y) in S:
        for dx in (1, -1):
            if (x + dx, y + 1) in S and (x + dx, y) not in S and (x, y + 1) not in S:
                return False
    return True


def cells_simple(S):
    """One piece, and no two cells that only share a corner."""
    if not S:
        return False
    if not no_contact(S):
        return False
    seen, st = {min(S)}, [min(S)]
    while st:
        x, y = st.pop()
        for n in ((x + 1, y), (x - 1, y), (x, y + 1), (x, y - 1)):
            if n in S and n not in seen:
                seen.add(n)
                st.append(n)
    return len(seen) == len(S)


# ---- simple polygons ------------------------------------------------------
def crosses(a, b, c, d):
    """Do the segments ab and cd share a point?"""
    if max(a[0], b[0]) < min(c[0], d[0]) or max(c[0], d[0]) < min(a[0], b[0]) or \
       max(a[1], b[1]) < min(c[1], d[1]) or max(c[1], d[1]) < min(a[1], b[1]):
        return False
    s = lambda v: (v > 0) - (v < 0)
    return s(cross(a, b, c)) * s(cross(a, b, d)) <= 0 and s(cross(c, d, a)) * s(cross(c, d, b)) <= 0


def simple(P):
    n = len(P)
    if n < 3 or len(set(P)) != n:
        return False
    for i in range(n):
        if cross(P[i - 1], P[i], P[(i + 1) % n]) == 0:
            return False
        for j in range(i + 2, n):
            if i == 0 and j == n - 1:
                continue
            if crosses(P[i], P[i + 1], P[j], P[(j + 1) % n]):
                return False
    return True


def polygon(r, w=16, n=None):
    """A random simple counter-clockwise polygon with corners on the grid 0..w."""
    while True:
        k = n or r.choice([3, 4, 4, 5, 6, 7, 9])
        if r.random() < 0.35:
            P = hull([(r.randrange(w + 1), r.randrange(w + 1)) for _ in range(k + 2)])
        else:                                   # untangle a random tour
            P = list({(r.randrange(w + 1), r.randrange(w + 1)) for _ in range(k)})
            r.shuffle(P)
            for _ in range(60):
                m, hit = len(P), False
                for i in range(m):
                    for j in range(i + 2, m):
                        if (i, j) != (0, m - 1) and crosses(P[i], P[i + 1], P[j], P[(j + 1) % m]):
                            P[i + 1:j + 1] = P[i + 1:j + 1][::-1]
                            hit = True
                if not hit:
                    break
        if simple(P):
            return P if area2(P) > 0 else P[::-1]


def dist2_seg(a, b, p):
    """Squared distance of p from the segment ab."""
    dx, dy = b[0] - a[0], b[1] - a[1]
    l = dx * dx + dy * dy
    t = 0.0 if l == 0 else max(0.0, min(1.0, ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / l))
    x, y = a[0] + t * dx - p[0], a[1] + t * dy - p[1]
    return x * x + y * y


def sides(loops):
    return [(P[i], P[(i + 1) % len(P)]) for P in loops for i in range(len(P))]


# ---- unions of unit cubes, and convex bodies ------------------------------
CUBE = {(1, 0, 0): [(1, 0, 0), (1, 1, 0), (1, 1, 1), (1, 0, 1)], (-1, 0, 0): [(0, 0, 0), (0, 0, 1), (0, 1, 1), (0, 1, 0)],
        (0, 1, 0): [(0, 1, 0), (0, 1, 1), (1, 1, 1), (1, 1, 0)], (0, -1, 0): [(0, 0, 0), (1, 0, 0), (1, 0, 1), (0, 0, 1)],
        (0, 0, 1): [(0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)], (0, 0, -1): [(0, 0, 0), (0, 1, 0), (1, 1, 0), (1, 0, 0)]}


def cube_faces(S):
    """The unit squares around a set of unit cubes, facing outward."""
    return [[tuple(c[i] + v[i] for i in range(3)) for v in q] for c in sorted(S) for d, q in sorted(CUBE.items())
            if tuple(c[i] + d[i] for i in range(3)) not in S]


def box_faces(lo, hi):
    return [[tuple(hi[i] if v[i] else lo[i] for i in range(3)) for v in q] for _, q in sorted(CUBE.items())]


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1], a[2] - b[2])


def cross3(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def dot3(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def tetra_faces(P):
    """The faces of the tetrahedron on four points, facing outward (None if flat)."""
    v = dot3(cross3(sub(P[1], P[0]), sub(P[2], P[0])), sub(P[3], P[0]))
    if v == 0:
        return None
    a, b, c, d = P if v > 0 else (P[0], P[2], P[1], P[3])
    return [[a, c, b], [a, b, d], [b, c, d], [c, a, d]]


def octa_faces(c, k):
    x, y, z = c
    E, W, N, S, U, D = (x + k, y, z), (x - k, y, z), (x, y + k, z), (x, y - k, z), (x, y, z + k), (x, y, z - k)
    return [[E, N, U], [N, W, U], [W, S, U], [S, E, U], [N, E, D], [W, N, D], [S, W, D], [E, S, D]]
