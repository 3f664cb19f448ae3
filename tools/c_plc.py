"""C16: simplification of outlines."""
import json, math, re
import vp, vpbuild
from vp import Check, CheckError
from c_tess import scale
from geom import Placement
import shapes
from shapes import polygon, sides, crosses, area2

MODEL = "INIT Init\nNEXT Next\nCONSTANTS N = %d\nMaxLen = %d\nBroken = %s\nINVARIANT InvCorners\nINVARIANT InvWalk\nINVARIANT InvAgain\n%s"


def driver():
    return vpbuild.build("geo", ["geo.cc"])


def gcd_points(a, b):
    """The grid places strictly between a and b."""
    d = [y - x for x, y in zip(a, b)]
    g = 0
    for v in d:
        g = math.gcd(g, abs(v))
    return [tuple(x + v // g * k for x, v in zip(a, d)) for k in range(1, g)]


def subdivided(r, P, q):
    """The loop P with some of the grid places on its sides."""
    out = []
    for i in range(len(P)):
        out.append(P[i])
        out += [p for p in gcd_points(P[i], P[(i + 1) % len(P)]) if r.random() < q]
    return out


def number(r, parts, dims, cyc):
    """Points and facets for parts given by facets of places: numbers in any order, the
    same place sometimes more than once (never within one facet), facets in any order."""
    ids, pts = {}, []
    dup = r.choice([0, 0.2, 1])
    def num(p):
        have = ids.setdefault(p, [])
        if not have or r.random() < dup:
            have.append(len(pts))
            pts.append(p)
            return have[-1]
        return r.choice(have)
    out = []
    for F in parts:
        fs = [[num(p) for p in f] for f in F]
        if cyc:
            fs = [f[k:] + f[:k] for f in fs for k in (r.randrange(len(f)),)]
            if r.random() < 0.7:
                r.shuffle(fs)
        elif r.random() < 0.6:
            r.shuffle(fs)
        out.append(fs)
    order = list(range(len(pts)))
    if r.random() < 0.7:
        r.shuffle(order)
    new = {o: i for i, o in enumerate(order)}
    pts = [pts[o] for o in order]
    if r.random() < 0.3:                  # points of nothing
        pts += [tuple(a + 1 for a in pts[0])]
    return pts, [[[new[i] for i in f] for f in fs] for fs in out]


def line(cid, what, pts, parts, put, r, tol):
    X = [put(p) for p in pts]
    dims = len(X[0])
    lo, hi = [min(x[k] for x in X) for k in range(dims)], [max(x[k] for x in X) for k in range(dims)]
    if r.random() < 0.5:                  # a roomier box
        m = max(h - l for l, h in zip(lo, hi)) * r.choice([0.01, 0.5, 3])
        lo, hi = [l - m for l in lo], [h + m for h in hi]
    f = lambda fs: "%d %s" % (len(fs), " ".join("%d %s" % (len(g), " ".join(map(str, g))) for g in fs))
    return "%s %s %d %s %s %d %s %s %.17g" % (cid, what, dims * len(X), " ".join("%.17g" % v for x in X for v in x), f(parts[0]),
                                              len(parts) - 1, " ".join(f(p) for p in parts[1:]), " ".join("%.17g" % v for v in lo + hi), tol)


PLS = [Placement(), Placement(), Placement(1024.0), Placement(0.01, -3.0, 7.5), Placement(1e-4), Placement(1e4, 1e5, -2e4)]


def cases2(ck, r):
    t = vp.tlc("SimplifyModel", MODEL % (2, 6 if scale(1) > 1 else 5, "FALSE", "INVARIANT Emit\n"), ck.work, "model", timeout=600)
    if not t.ok:
        raise CheckError("SimplifyModel fails:\n" + t.log[-3000:])
    ck.add_tlc(t)
    tb = vp.tlc("SimplifyModel", MODEL % (1, 5, "TRUE", ""), ck.work, "broken", timeout=300)
    if "InvWalk" not in tb.violated:
        raise CheckError("the broken walk passes:\n" + tb.log[-2000:])
    hs = sorted(set(re.findall(r'"LOOP (.*)"', t.log)))
    ck.cov["parts"]["model"] = {"states": t.distinct, "loops_generated": len(hs)}
    out = []
    for k, h in enumerate(r.sample(hs, min(len(hs), scale(700)))):
        out.append(("m%d" % k, [[tuple(p) for p in json.loads(json.loads('"' + h + '"'))]]))
    for k in range(scale(700)):
        q = r.choice([0, 0.3, 1])
        if r.random() < 0.4:
            n = r.choice([2, 3, 4])
            S = frozenset((x, y) for x in range(n) for y in range(n) if r.random() < r.choice([.4, .7]))
            m = r.choice([1, 3])
            L = [[(m * x, m * y) for x, y in P] for P in shapes.cell_loops(S)] if shapes.no_contact(S) else []
            if not L or sum(area2(P) > 0 for P in L) != 1:
                continue
            L.sort(key=lambda P: area2(P) < 0)
        else:
            L = [polygon(r)]
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                h = [(x + 5, y + 5) for x, y in polygon(r, 6, 3)]
                if all(shapes.in_poly(L[0], p) > 0 for p in h) and not any(crosses(a, b, c, e) for a, b in sides(L) for c, e in sides([h])) \
                        and all(shapes.in_poly(g, p) < 0 for g in L[1:] for p in h):
                    L.append(h)
        L = [subdivided(r, P, q) for P in L]
        L = [P[j:] + P[:j] for P in L for j in (r.randrange(len(P)),)]
        L = [P[::-1] if r.random() < 0.4 else P for P in L]
        out.append(("s%d" % k, L))
    return out


def split_face(r, f):
    """Triangles or quadrilaterals that make up a convex face, maybe with new places inside and on its sides."""
    k = r.randrange(4)
    if k == 0 or len(f) > 4:
        return [f]
    if k == 1 and len(f) == 4:
        i = r.randrange(2)
        return [[f[i], f[i + 1], f[(i + 2) % 4]], [f[i], f[(i + 2) % 4], f[(i + 3) % 4]]]
    c = [sum(p[j] for p in f) for j in range(3)]
    if all(v % len(f) == 0 for v in c):
        m = tuple(v // len(f) for v in c)
        return [[f[i], f[(i + 1) % len(f)], m] for i in range(len(f))]
    return [f]


def conforming(faces):
    """Put the vertices of other facets on the sides they lie on."""
    V = {p for f in faces for p in f}
    out = []
    for f in faces:
        g = []
        for i in range(len(f)):
            a, b = f[i], f[(i + 1) % len(f)]
            g.append(a)
            g += [p for p in gcd_points(a, b) if p in V]
        out.append(g)
    return out


def refine(r, faces, q):
    """Subdivide some edges (the same for all facets), after splitting some facets."""
    F = [g for f in faces for g in split_face(r, f)]
    mid = {}
    out = []
    for f in F:
        g = []
        for i in range(len(f)):
            a, b = f[i], f[(i + 1) % len(f)]
            g.append(a)
            k = (min(a, b), max(a, b))
            if k not in mid:
                mid[k] = [p for p in gcd_points(*k) if r.random() < q]
            g += mid[k] if a < b else mid[k][::-1]
        out.append(g)
    return out


def solids(S):
    """Connected sets of cubes where no two meet at an edge or a corner only."""
    def ok(c, d):
        df = [i for i in range(3) if c[i] != d[i]]
        if len(df) == 2:
            return any(tuple(d[i] if i == j else c[i] for i in range(3)) in S for j in df)
        # cubes sharing one corner: some path of cubes around it
        ring = [tuple(d[i] if m >> i & 1 else c[i] for i in range(3)) for m in range(8)]
        ring = {x for x in ring if x in S}
        seen, st = {c}, [c]
        while st:
            x = st.pop()
            for y in ring - seen:
                if sum(a != b for a, b in zip(x, y)) == 1:
                    seen.add(y)
                    st.append(y)
        return d in seen
    L = sorted(S)
    for i, c in enumerate(L):
        for d in L[i + 1:]:
            if all(abs(a - b) <= 1 for a, b in zip(c, d)) and not ok(c, d):
                return False
    # and the same for the cubes that are not there
    return True


def cases3(r):
    out = []
    for k in range(scale(260)):
        m = r.choice([2, 6])
        up = lambda F: [[tuple(m * v for v in p) for p in f] for f in F]
        kind = r.randrange(6)
        holes = []
        if kind < 3:
            n = r.choice([1, 2, 2, 3])
            g = [(x, y, z) for x in range(n) for y in range(n) for z in range(r.choice([1, n]))]
            q = r.choice([.4, .7, 1])
            S = frozenset(c for c in g if r.random() < q)
            if r.random() < 0.12:         # around a hole, or a pit
                n = 3
                S = frozenset((x, y, z) for x in range(3) for y in range(3) for z in range(r.choice([1, 3]))) - {(1, 1, 0), (1, 1, r.choice([0, 1, 2]))}
            if not S or not solids(S) or not solids(frozenset((x, y, z) for x in range(-1, n + 1) for y in range(-1, n + 1) for z in range(-1, n + 1)) - S):
                continue
            F = up(shapes.cube_faces(S))
        elif kind == 3:
            F = up(shapes.box_faces((0, 0, 0), (3, 3, 3)))
            holes = [up(shapes.box_faces((1, 1, 1), (2, 2, 2)))]
            if r.random() < 0.5:
                holes[0] = [f[::-1] for f in holes[0]]
        elif kind == 4:
            F = up(shapes.octa_faces((2, 2, 2), 2))
        else:
            T = None
            while T is None:
                T = shapes.tetra_faces([tuple(r.randrange(5) for _ in range(3)) for _ in range(4)])
            F = up(T)
        q = r.choice([0, 0.5, 1])
        parts = [refine(r, F, q)] + [refine(r, h, q) for h in holes]
        if sum(len(p) for p in parts) > 110:
            continue
        if r.random() < 0.2:
            parts = [[f[::-1] for f in p] for p in parts]
        V = sorted({p for f in F for p in f})
        lo, hi = [min(p[i] for p in V) for i in range(3)], [max(p[i] for p in V) for i in range(3)]
        out.append(("v%d" % k, parts, [[r.randrange((lo[i] - 1) * 32, (hi[i] + 1) * 32) for i in range(3)] for _ in range(12)]))
    return out


def read(out, dims, back):
    """The returned outline on the integer grid: points and the facets of its parts."""
    P = out["points"]
    if any(isinstance(x, str) for x in P):
        return None
    pts = []
    for i in range(len(P) // dims):
        p = back(P[dims * i:dims * i + dims])
        if any(abs(v - round(v)) > 1e-5 or abs(v) > 1e6 for v in p):
            return None
        pts.append([int(round(v)) for v in p])
    parts = []
    for F in [out["facets"]] + out["holes"]:
        if any((len(f) != 2 if dims == 2 else len(f) < 3) or not all(0 <= i < len(pts) for i in f) for f in F):
            return None
        parts.append([[pts[i] for i in f] for f in F])
    return pts, parts


def c16():
    ck = Check("C16", "model_checking")
    r = vp.rng("C16")
    exe = driver()
    lines, info = [], {}
    for cid, L in cases2(ck, r):
        pl = r.choice(PLS + [Placement(1.0, 0.0, 0.0, r.uniform(0, 3))])
        pts, parts = number(r, [[[P[i], P[(i + 1) % len(P)]] for i in range(len(P))] for P in L], 2, False)
        lines.append(line(cid, "simp2", pts, parts, pl.put, r, r.choice([1e-10, 1e-10, 1e-8, 1e-12])))
        def back(x, pl=pl):
            u, v = (x[0] - pl.ox) / pl.s, (x[1] - pl.oy) / pl.s
            return (pl.c * u + pl.n * v, -pl.n * u + pl.c * v)
        info[cid] = dict(line=lines[-1], dim=2, parts=[[list(p) for p in P] for P in L], back=back, probes=[])
    K = 32
    for cid, parts, probes in cases3(r):
        s, org = r.choice([(1.0, (0, 0, 0)), (1.0, (0, 0, 0)), (100.0, (5.0, -7.0, 300.0)), (0.01, (0, 0, 0)), (1e-4, (0, 0, 0)), (1e-4, (0.01, 0.02, -0.01))])
        pts, num = number(r, parts, 3, True)
        put = lambda p: tuple(org[i] + s * p[i] for i in range(3))
        lines.append(line(cid, "simp3", pts, num, put, r, r.choice([1e-10, 1e-8, 1e-12])))
        info[cid] = dict(line=lines[-1], dim=3, parts=[[[list(p) for p in f] for f in F] for F in parts], probes=probes,
                         back=lambda x, s=s, org=org: [(x[i] - org[i]) / s for i in range(3)])
    res = vp.run_cases(exe, lines, ck.work, "simplify", per_case=2.0, base=60.0)
    for dim, inv, heap in ((2, ["InvParts", "InvLoops", "InvPoints", "InvKept"], "6g"), (3, ["InvParts", "InvFacets", "InvEncloses", "InvPoints", "InvKept"], "6g")):
        tl, ids = [], []
        for cid, i in info.items():
            if i["dim"] != dim:
                continue
            rec = res.get(cid, {})
            if "crash" in rec:
                ck.violation("simplifying an outline ends abnormally (%s): %s" % (rec["crash"], i["line"][:400]), {"line": i["line"]})
                continue
            if "outs" not in rec:
                continue
            outs = [read(o, dim, i["back"]) for o in rec["outs"]]
            if None in outs:
                ck.violation("the simplified outline has broken facets or moved points: %s" % i["line"][:400], {"line": i["line"], "record": rec})
                continue
            tl.append({"dim": dim, "fine": K, "parts": i["parts"], "probes": i["probes"],
                       "outs": [{"kept": o["kept"], "points": p[0], "parts": p[1]} for o, p in zip(rec["outs"], outs)]})
            ids.append(i["line"])
        t, bad = vp.check_cases("SimplifyTrace", tl, inv, ck.work, "trace%d" % dim, timeout=850)
        ck.add_tlc(t)
        ck.cov["evaluations"] += 2 * len(tl)
        ck.cov["traces_validated_against_impl"] += len(tl)
        ck.cov["parts"]["simplified_%dd" % dim] = {"outlines": len(tl), "with_holes": sum(len(x["parts"]) > 1 for x in tl)}
        for k in (0, len(ids) - 1):
            ck.sample({"outline": ids[k][:300]})
        for k, i in sorted(set(bad))[:40]:
            ck.violation("%s fails for the outline %s" % (i, ids[k][:500]), {"invariant": i, "line": ids[k], "trace": tl[k]})
    return ck.finish()
