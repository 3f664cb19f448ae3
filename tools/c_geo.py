"""C17: geometric queries."""
import concurrent.futures, math
import vp, vpbuild
from vp import Check, CheckError
from c_tess import scale
from c_plc import number, gcd_points, driver
from geom import Placement
import shapes
from shapes import polygon, sides, crosses, area2, cross, hull

MODEL = 'INIT Init\nNEXT Next\nCONSTANTS N = %d\nAsk = "%s"\nBroken = %s\nINVARIANT %s\n'
ASKS = [("within", 2, 3, "InvWithin"), ("near", 2, 4, "InvNear"), ("meet", 2, 3, "InvMeet"),
        ("hull", 2, 3, "InvHull"), ("convex", 2, 3, "InvConvex"), ("convex3", 1, 2, "InvConvex3")]
K = 1000
BAD = 10 ** 6          # stands for a value that is no position on the grid

# Placements that put grid points exactly, and others.
EXACT = [Placement(), Placement(1.0, -7.0, 5.0), Placement(1024.0), Placement(2.0 ** -10, 0.5, -3.0), Placement(0.25, 1024.0, -96.0)]
ANY = EXACT + [Placement(0.01, -3.0, 7.5), Placement(1e-4), Placement(1e4, 1e5, -2e4)]


def models(ck):
    def one(a):
        ask, n, inv, broken = a
        return a, vp.tlc("GeometryModel", MODEL % (n, ask, broken, inv), ck.work, "m_%s_%s" % (ask, broken), workers=2, timeout=800, heap="2g")
    todo = [(a, big if scale(1) > 1 else n, inv, "FALSE") for a, n, big, inv in ASKS] + \
           [(a, n, inv, "TRUE") for a, n, big, inv in ASKS if a not in ("near", "meet")]
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for (ask, n, inv, broken), t in ex.map(one, todo):
            if broken == "FALSE":
                if not t.ok:
                    raise CheckError("GeometryModel %s fails:\n%s" % (ask, t.log[-2000:]))
                ck.add_tlc(t)
                ck.cov["parts"].setdefault("model", {})[ask] = {"grid": n, "states": t.distinct}
            elif inv not in t.violated:
                raise CheckError("GeometryModel: the broken %s passes:\n%s" % (ask, t.log[-2000:]))


def outline(r):
    """Loops of a domain: the outer one, then the holes (touching at points now and then)."""
    q = r.choice([0, 0, 0.3])
    while True:
        if r.random() < 0.4:
            n = r.choice([2, 3, 4])
            p = r.choice([.5, .8])
            S = frozenset((x, y) for x in range(n) for y in range(n) if r.random() < p)
            m = r.choice([1, 2, 3])
            L = [[(m * x, m * y) for x, y in P] for P in shapes.cell_loops(S)] if S else []
            if sum(area2(P) > 0 for P in L) != 1:
                continue
            L.sort(key=lambda P: area2(P) < 0)
        else:
            w = r.choice([6, 12, 16])
            L = [polygon(r, w)]
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                h = [(x + w // 3, y + w // 3) for x, y in polygon(r, 4, 3)]
                if all(shapes.in_poly(L[0], p) > 0 for p in h) and not any(crosses(a, b, c, e) for a, b in sides(L) for c, e in sides([h])) \
                        and all(shapes.in_poly(g, p) < 0 for g in L[1:] for p in h):
                    L.append(h)
        L = [[p for i in range(len(P)) for p in [P[i]] + [g for g in gcd_points(P[i], P[(i + 1) % len(P)]) if r.random() < q]] for P in L]
        L = [P[j:] + P[:j] for P in L for j in (r.randrange(len(P)),)]
        return [P[::-1] if r.random() < 0.4 else P for P in L]


def toks(xs):
    return "%d %s" % (len(xs), " ".join("%.17g" % v for v in xs))


def plc(parts):
    f = lambda fs: "%d %s" % (len(fs), " ".join("%d %s" % (len(g), " ".join(map(str, g))) for g in fs))
    return "%s %d %s" % (f(parts[0]), len(parts) - 1, " ".join(f(p) for p in parts[1:]))


def flat(pts):
    return [v for p in pts for v in p]


def kpos(x, back):
    """A returned position in units of 1/K."""
    if any(isinstance(v, str) for v in x):
        return [BAD] * len(x)
    return [int(round(K * v)) if abs(v) < BAD / K else BAD for v in back(x)]


def sback(s, org):
    return lambda x: [(v - o) / s for v, o in zip(x, org)]


class Cases:
    def __init__(self):
        self.lines, self.info = [], {}

    def add(self, what, args, make):
        """`make` turns the record into the trace."""
        cid = "%s%d" % (what, len(self.lines))
        self.lines.append("%s %s %s" % (cid, what, args))
        self.info[cid] = (self.lines[-1], make)


def outline_cases(r, cs):
    for k in range(scale(170)):
        L = outline(r)
        E = [[(P[i], P[(i + 1) % len(P)]) for i in range(len(P))] for P in L]
        pts, parts = number(r, [[list(e) for e in part] for part in E], 2, False)
        V = [p for P in L for p in P]
        lo, hi = [min(p[i] for p in V) for i in (0, 1)], [max(p[i] for p in V) for i in (0, 1)]
        grid = [(x, y) for x in range(lo[0] - 1, hi[0] + 2) for y in range(lo[1] - 1, hi[1] + 2)]
        qs = r.sample(grid, min(len(grid), 16)) + r.sample(V, min(len(V), 4))
        jp = [[[list(a), list(b)] for a, b in part] for part in E]
        pl = r.choice(EXACT)
        head = lambda pl: "%s %s" % (toks(flat(map(pl.put, pts))), plc(parts))
        cs.add("within", "%s %s" % (head(pl), toks(flat(map(pl.put, qs)))), lambda rec, qs=qs, jp=jp: {
            "what": "within", "parts": jp, "qs": [{"p": list(p), "a": a} for p, a in zip(qs, rec["qs"])]})
        pl = r.choice(ANY + [Placement(1.0, 0.0, 0.0, r.uniform(0, 3))])
        def near(rec, qs=qs, jp=jp, pl=pl):
            return {"what": "nearest", "parts": jp, "qs": [
                {"p": list(p), "x": kpos(a[:2], lambda x: back(pl, x)), "d": BAD if isinstance(a[2], str) or a[2] < 0 or a[2] > 40 * pl.s else int(round(K * a[2] / pl.s))}
                for p, a in zip(qs, rec["qs"])]}
        cs.add("nearest", "%s %s" % (head(pl), toks(flat(map(pl.put, qs)))), near)
        ss = [(r.choice(grid), r.choice(grid)) for _ in range(12)]
        for _ in range(6):                      # through vertices, along sides
            a, b = r.choice(V), r.choice(V)
            d = (b[0] - a[0], b[1] - a[1])
            g = math.gcd(abs(d[0]), abs(d[1])) or 1
            i, j = r.choice([0, 0, 1, -1]), r.choice([0, 0, 1, -1])
            ss.append(((a[0] + i * d[0] // g, a[1] + i * d[1] // g), (b[0] + j * d[0] // g, b[1] + j * d[1] // g)))
        ss = [s for s in ss if s[0] != s[1]]
        pl = r.choice(EXACT)
        def inter(rec, ss=ss, jp=jp, pl=pl):
            return {"what": "inter", "parts": jp, "qs": [
                {"s": [list(p) for p in s], "n": a["n"] if a["kept"] else -1, "x": [kpos(a["x"][i:i + 2], lambda x: back(pl, x)) for i in range(0, len(a["x"]) - 1, 2)]}
                for s, a in zip(ss, rec["qs"])]}
        cs.add("inter", "%s %s" % (head(pl), toks(flat(pl.put(p) for s in ss for p in s))), inter)


def back(pl, x):
    u, v = (x[0] - pl.ox) / pl.s, (x[1] - pl.oy) / pl.s
    return (pl.c * u + pl.n * v, -pl.n * u + pl.c * v)


def index_facets(fs, n):
    return all(0 <= i < n for f in fs for i in f)


def hull_cases(r, cs):
    for k in range(scale(260)):
        kind = r.randrange(6)
        w = r.choice([2, 4, 12, 20])
        n = r.choice([1, 2, 3, 4, 6, 10, 25])
        P = [(r.randrange(w + 1), r.randrange(w + 1)) for _ in range(n)]
        if kind == 0:                                             # on a line
            a, d = (r.randrange(9), r.randrange(9)), r.choice([(1, 0), (0, 1), (1, 1), (1, -1), (2, 1), (-1, 3)])
            P = [(a[0] + j * d[0], a[1] + j * d[1]) for j in (r.randrange(6) for _ in range(n))]
        elif kind == 1:                                           # a full block
            P = [(x, y) for x in range(r.choice([2, 3, 4])) for y in range(r.choice([1, 2, 3, 5]))]
            r.shuffle(P)
        elif kind == 2:                                           # almost on a line
            P = [(x, 0) for x in range(0, 21, r.choice([1, 4]))] + [(r.randrange(21), 1)]
            r.shuffle(P)
        if r.random() < 0.3:
            P += [r.choice(P) for _ in range(3)]
        pl = r.choice(ANY)
        e = r.choice([6, 6, 12, 20, 30])
        X = [pl.put(p) for p in P]
        low = [min(x[i] for x in X) for i in (0, 1)]
        if r.random() < 0.3:
            low = [v - pl.s * r.choice([0.25, 3.0]) for v in low]
        def make(rec, P=P, strict=(pl in EXACT and e <= 20)):
            F = rec["facets"]
            if not index_facets(F, len(P)) or any(len(f) != 2 for f in F):
                F = [[0, 0]] * 3
            return {"what": "hull2", "points": [list(p) for p in P], "strict": strict, "qs": [{"facets": [[list(P[i]) for i in f] for f in F]}]}
        cs.add("hull2", "%s %s %.17g" % (toks(flat(X)), toks(low), pl.s * 2.0 ** -e), make)
    for k in range(scale(220)):
        kind = r.randrange(4)
        w = r.choice([1, 2, 4, 6])
        n = r.choice([4, 5, 6, 8, 12, 20])
        P = [tuple(r.randrange(w + 1) for _ in range(3)) for _ in range(n)]
        if kind == 0:
            P = [(x, y, z) for x in range(2) for y in range(r.choice([2, 3])) for z in range(r.choice([2, 2, 3]))]
            r.shuffle(P)
        if kind == 1:
            P = [tuple(v for v in p) for p in {x for f in shapes.octa_faces((2, 2, 2), 2) for x in f}] + [(2, 2, 2)] * r.randrange(2)
            r.shuffle(P)
        if r.random() < 0.3:
            P += [r.choice(P) for _ in range(3)]
            r.shuffle(P)
        T = None
        for _ in range(40):
            S = r.sample(P, 4)
            if vol(*S):
                T = [8 * sum(p[i] for p in S) for i in range(3)]
        if T is None:
            continue
        s, org = r.choice([(1.0, (0, 0, 0)), (1.0, (5, -3, 2)), (1024.0, (0, 0, 0)), (0.01, (0.5, 7.0, -1.0)), (1e-5, (0, 0, 0)), (1e-9, (0, 0, 0)), (1e4, (1e5, 0, 0))])
        X = [tuple(org[i] + s * p[i] for i in range(3)) for p in P]
        def make(rec, P=P, T=T):
            F = rec["facets"]
            if not index_facets(F, len(P)) or any(len(f) != 3 for f in F):
                F = []
            return {"what": "hull3", "points": [list(p) for p in P], "inner": [T], "qs": [{"facets": [[list(P[i]) for i in f] for f in F]}]}
        cs.add("hull3", "%s %s %.17g" % (toks(flat(X)), toks([min(x[i] for x in X) for i in range(3)]), s * r.choice([1e-4, 1e-8])), make)


def vol(a, b, c, d):
    u, v, w = [[q[i] - a[i] for i in range(3)] for q in (b, c, d)]
    return u[0] * (v[1] * w[2] - v[2] * w[1]) - u[1] * (v[0] * w[2] - v[2] * w[0]) + u[2] * (v[0] * w[1] - v[1] * w[0])


def reduced(r, facets, put):
    pts = sorted({p for f in facets for p in f})
    r.shuffle(pts)
    fs = [[pts.index(p) for p in f] for f in facets]
    if len(fs[0]) > 2:
        fs = [f[k:] + f[:k] for f in fs for k in (r.randrange(len(f)),)]
    r.shuffle(fs)
    return "%s %s" % (toks(flat(map(put, pts))), plc([fs]))


def solid(r):
    k = r.randrange(4)
    if k == 0:
        a = tuple(r.randrange(4) for _ in range(3))
        return shapes.box_faces(a, tuple(v + r.choice([1, 1, 2, 3]) for v in a))
    if k == 1:
        return shapes.octa_faces(tuple(r.randrange(1, 4) for _ in range(3)), r.choice([1, 2]))
    while True:
        o, w = [r.randrange(3) for _ in range(3)], r.choice([1, 2, 4])
        T = shapes.tetra_faces([tuple(v + r.randrange(w + 1) for v in o) for _ in range(4)])
        if T:
            return T


def convex_cases(r, cs):
    for k in range(scale(450)):
        L = []
        while len(L) < 2:
            w, o = r.choice([1, 2, 3, 5, 9]), (r.randrange(7), r.randrange(7))
            H = hull([(o[0] + r.randrange(w + 1), o[1] + r.randrange(w + 1)) for _ in range(r.choice([3, 4, 6]))])
            if len(H) >= 3 and area2(H) > 0:
                L.append([tuple(p) for p in H])
        if r.random() < 0.2:                    # one in the other
            m = r.choice([3, 5])
            c = (sum(p[0] for p in L[0]), sum(p[1] for p in L[0]))
            n = len(L[0])
            L[1] = [tuple(n * p[i] for i in (0, 1)) for p in L[0]]
            L[0] = [tuple((m * c[i] + (n * p[i] - c[i]) * r.choice([2, m])) // m for i in (0, 1)) for p in L[0]]
            L[0] = [tuple(p) for p in hull(L[0])]
            if len(L[0]) < 3 or area2(L[0]) <= 0:
                continue
        if r.random() < 0.5:
            L.reverse()
        put = r.choice(EXACT).put
        loops = [[[P[i], P[(i + 1) % len(P)]] for i in range(len(P))] for P in L]
        cs.add("convex2", "%s %s" % (reduced(r, loops[0], put), reduced(r, loops[1], put)), lambda rec, L=L: {
            "what": "convex2", "A": [list(p) for p in L[0]], "B": [list(p) for p in L[1]],
            "qs": [{"meets": [bool(v) for v in rec["meets"]], "in": [bool(v) for v in rec["in"]]}]})
    for k in range(scale(300)):
        A, B = solid(r), solid(r)
        if r.random() < 0.15:
            B = [[tuple(3 * v for v in p) for p in f] for f in A]
            A = [[tuple(3 * v + r.choice([0, 0, 1]) - 0 for v in p) for p in f] for f in shapes.box_faces((0, 0, 0), (1, 1, 1))] if r.random() < .5 else B
            if A is not B:
                o = r.choice([p for f in B for p in f])
                A = [[tuple(a + b for a, b in zip(p, (1, 1, 1))) for p in f] for f in shapes.box_faces(o, tuple(v + 1 for v in o))]
        s = r.choice([1.0, 1.0, 256.0, 2.0 ** -8])
        put = lambda p: [s * v for v in p]
        cs.add("convex3", "%s %s" % (reduced(r, A, put), reduced(r, B, put)), lambda rec, A=A, B=B: {
            "what": "convex3", "A": [[list(p) for p in f] for f in A], "B": [[list(p) for p in f] for f in B],
            "qs": [{"meets": [bool(v) for v in rec["meets"]], "in": [bool(v) for v in rec["in"]]}]})


def few(cs, what, dim, qs, make):
    cs.add(what, "%d %d %s" % (dim, len(qs), " ".join(toks(q[0]) for q in qs)), lambda rec: {
        "what": what, "qs": [make(q, a) for q, a in zip(qs, rec["qs"])]})


def small_cases(r, cs):
    pt = lambda d, w: tuple(r.randrange(w + 1) for _ in range(d))
    ident = lambda x: x
    for k in range(scale(30)):
        w = r.choice([2, 3, 8, 18])
        pl = r.choice(EXACT)
        qs = []
        while len(qs) < 12:
            p = [pt(2, w) for _ in range(4)]
            if p[0] != p[1] and p[2] != p[3]:
                qs.append((flat(map(pl.put, p)), p))
        few(cs, "segments", 2, qs, lambda q, a, pl=pl: dict(zip("abcd", map(list, q[1])), hit=a["ok"], x=kpos(a["x"][:2], lambda x: back(pl, x))))
        for dim in (2, 3):
            w = r.choice([1, 2, 4, 9])
            o = r.choice([0, 0, -5, 300])
            qs = []
            for _ in range(12):
                p = [pt(dim, w) for _ in range(3)]
                if r.random() < 0.5:
                    t = r.choice([-1, 0, 1, 2])
                    p[2] = tuple(a + t * (b - a) for a, b in zip(p[0], p[1]))
                if r.random() < 0.3:
                    p = [p[0], tuple(3 * b - 2 * a for a, b in zip(p[0], p[1])), p[1]]
                qs.append(([o + v for v in flat(p)], p))
            few(cs, "line", dim, qs, lambda q, a: dict(zip("abc", map(list, q[1])), collinear=a["x"][0] == 1, between=a["x"][1] == 1))
            qs = []
            for _ in range(12):
                p = [pt(dim, w) for _ in range(4)]
                qs.append(([o + v for v in flat(p)], p))
            few(cs, "sides", dim, qs, lambda q, a: dict(zip("abcd", map(list, q[1])), side=int(a["x"][0]), n=[int(v) if v == int(v) else BAD for v in a["x"][3:]]))
        w = r.choice([2, 4, 9])
        qs = []
        while len(qs) < 10:
            p = [pt(2, w) for _ in range(3)]
            if cross(*p):
                qs.append((flat(p), p))
        mk = lambda q, a: {"p": [list(p) for p in q[1]], "ok": a["ok"], "x": kpos(a["x"][:len(q[1][0])], ident)}
        few(cs, "circum", 2, qs, mk)
        qs = []
        while len(qs) < 14:
            p = [pt(3, w) for _ in range(r.choice([3, 4]))]
            if len(p) == 3 and len(set(p)) == 3 or len(p) == 4 and vol(*p):
                qs.append((flat(p), p))
        few(cs, "circum", 3, qs, mk)
        qs = []
        for _ in range(14):
            p, o = pt(3, w), pt(3, w)
            u, n = [tuple(r.randrange(-3, 4) for _ in range(3)) for _ in range(2)]
            if r.random() < 0.3:                # in the plane, or along it
                u = (n[1], -n[0], 0)
            if r.random() < 0.3 and any(n):
                p = tuple(a + b for a, b in zip(o, (n[2], 0, -n[0])))
            if any(u) and any(n):
                qs.append((list(p) + list(u) + list(o) + list(n), (p, u, o, n)))
        few(cs, "plane", 3, qs, lambda q, a: dict(zip("puon", map(list, q[1])), hit=a["ok"], x=kpos(a["x"], ident)))
        qs = []
        for _ in range(10):
            lo = tuple(r.randrange(-4, 1) for _ in range(3))
            hi = tuple(r.randrange(2, 6) for _ in range(3))
            p = tuple(r.randrange(l + 1, h) for l, h in zip(lo, hi))
            u = tuple(r.randrange(-3, 4) for _ in range(3))
            if any(u):
                qs.append((list(p) + list(u) + list(lo) + list(hi), (p, u, lo, hi)))
        few(cs, "box", 3, qs, lambda q, a: {"p": list(q[1][0]), "u": list(q[1][1]), "low": list(q[1][2]), "high": list(q[1][3]), "x": kpos(a["x"][:3], ident), "plane": int(a["x"][3])})
        for dim, us in ((2, [(3, 4, 5), (-4, 3, 5), (1, 0, 1), (0, -1, 1), (-5, -12, 13)]), (3, [(1, 2, 2, 3), (-2, 3, 6, 7), (0, 0, -1, 1), (2, -1, 2, 3)])):
            qs = []
            while len(qs) < 10:
                o, R = tuple(r.randrange(-3, 4) for _ in range(dim)), r.choice([1, 2, 5])
                p = tuple(v + r.randrange(-R, R + 1) for v in o)
                u = r.choice(us)
                if dim == 3 and sum((a - b) ** 2 for a, b in zip(p, o)) > R * R:
                    continue
                qs.append((list(p) + [v / u[-1] for v in u[:-1]] + list(o) + [R], (p, u[:-1], o, R)))
            few(cs, "round", dim, qs, lambda q, a: {"p": list(q[1][0]), "u": list(q[1][1]), "o": list(q[1][2]), "r": q[1][3], "x": kpos(a["x"][:len(q[1][0])], ident)})


def mesh_toks(nodes, faces, cells, dims):
    f = lambda L: "%d %s" % (len(L), " ".join("%d %s" % (len(g), " ".join(map(str, g))) for g in L))
    return "%s %s %s 0 0 0 0 0 0" % (toks(flat(nodes)), f(faces), f(cells))


def cell_cases(r, cs):
    for k in range(scale(120)):
        if r.random() < 0.5:
            P = polygon(r, r.choice([4, 12]))
            F = [[P[i], P[(i + 1) % len(P)]] for i in range(len(P))]
        else:
            P, F = None, solid(r)
            m = r.choice([1, 2])
            F = [[tuple(m * v for v in p) for p in f] for f in F]
        dims = len(F[0][0])
        V = sorted({p for f in F for p in f})
        extra = [tuple(99 for _ in range(dims))] * r.randrange(2)
        V = V + extra
        r.shuffle(V)
        faces, cell = [], []
        other = [[V.index(F[0][0]), V.index(F[0][1])]] if dims == 2 else []
        for f in F:
            g = [V.index(p) for p in f]
            flip = r.random() < 0.5
            faces.append(g[::-1] if flip else g)
            cell.append(~(len(faces) - 1) if flip else len(faces) - 1)
        if dims == 3 or r.random() < 0.3:
            r.shuffle(cell)
        s, org = r.choice([(1.0, 0.0), (1.0, 16.0), (64.0, 0.0), (0.125, -2.0)])
        nodes = [[org + s * v for v in p] for p in V]
        cells = [cell] if r.random() < 0.5 else [cell[::-1][:3], cell]
        def make(rec, P=P, F=F, dims=dims, s=s, org=org):
            a = rec["size"] * (2 if dims == 2 else 6) / s ** dims if not isinstance(rec["size"], str) else BAD
            a = int(round(a)) if abs(a - round(a)) < 1e-6 * max(1, abs(a)) else BAD
            q = {"x": kpos(rec["x"], lambda x: [(v - org) / s for v in x])}
            q["area" if dims == 2 else "vol"] = a
            t = {"what": "cell%d" % dims, "qs": [q]}
            if dims == 2:
                t["loop"] = [list(p) for p in P]
            else:
                t["faces"] = [[list(p) for p in f] for f in F]
            return t
        cs.add("cell%d" % dims, "%s %d" % (mesh_toks(nodes, faces, cells, dims), len(cells) - 1), make)


INVS = ["InvWithin", "InvNearest", "InvIntersections", "InvSegments", "InvHull2", "InvHull3", "InvConvex2", "InvConvex3",
        "InvLine", "InvSides", "InvCell2", "InvCell3", "InvCircum", "InvPlane", "InvBox", "InvRound"]


def c17():
    ck = Check("C17", "model_checking")
    r = vp.rng("C17")
    exe = driver()
    cs = Cases()
    for f in (outline_cases, hull_cases, convex_cases, small_cases, cell_cases):
        f(r, cs)
    with concurrent.futures.ThreadPoolExecutor(1) as ex:
        m = ex.submit(models, ck)
        res = vp.run_cases(exe, cs.lines, ck.work, "geo", per_case=2.0, base=60.0)
        m.result()
    tl, ids, kinds = [], [], {}
    for cid, (line, make) in cs.info.items():
        rec = res.get(cid, {})
        if "crash" in rec:
            ck.violation("a geometric query ends abnormally (%s): %s" % (rec["crash"], line[:400]), {"line": line})
        elif rec.get("ev") == "end":
            t = make(rec)
            tl.append(t)
            ids.append(line)
            kinds[t["what"]] = kinds.get(t["what"], 0) + len(t["qs"])
    t, bad = vp.check_cases("GeometryTrace", tl, INVS, ck.work, "trace", timeout=850)
    ck.add_tlc(t)
    ck.cov["evaluations"] += sum(kinds.values())
    ck.cov["traces_validated_against_impl"] += len(tl)
    ck.cov["parts"]["queries"] = kinds
    for k in (0, len(ids) // 2, len(ids) - 1):
        ck.sample({"query": ids[k][:300]})
    for k, i in sorted(set(bad))[:40]:
        ck.violation("%s fails for %s" % (i, ids[k][:500]), {"invariant": i, "line": ids[k], "trace": tl[k]})
    return ck.finish()
