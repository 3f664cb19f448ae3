"""C15: Boolean operations on outlines, as operations on sets of places."""
import json, math, re, time
import vp, vpbuild
from vp import Check, CheckError
from c_tess import scale
from geom import placements, Placement
import shapes
from shapes import cell_loops, cells_simple, no_contact, polygon, sides, dist2_seg, area2

OPS = ("union", "intersect", "subtract")


def driver():
    return vpbuild.build("csg", ["csg.cc"])


# ---- writing outlines
def loops_line(loops, pl, holes):
    """An outline of directed loops; clockwise ones as holes when asked to."""
    pts, fac, hol = [], [], []
    for P in loops:
        o, n = len(pts), len(P)
        pts += [pl.put(p) for p in P]
        f = ["2 %d %d" % (o + i, o + (i + 1) % n) for i in range(n)]
        if holes and area2(P) < 0:
            if holes == 2:                       # holes may run either way
                f = ["2 %d %d" % (o + (i + 1) % n, o + i) for i in range(n)][::-1]
            hol.append("%d %s" % (n, " ".join(f)))
        else:
            fac += f
    return "%d %s %d %s %d %s" % (2 * len(pts), " ".join("%.17g %.17g" % p for p in pts), len(fac), " ".join(fac), len(hol), " ".join(hol))


def faces_line(faces, s, org, hole=()):
    ids = {}
    def one(fs):
        return ["%d %s" % (len(f), " ".join(str(ids.setdefault(v, len(ids))) for v in f)) for f in fs]
    a, b = one(faces), one(hole)
    pts = sorted(ids, key=ids.get)
    h = "1 %d %s" % (len(b), " ".join(b)) if b else "0"
    return "%d %s %d %s %s" % (3 * len(pts), " ".join("%.17g" % (org[i] + s * p[i]) for p in pts for i in range(3)), len(a), " ".join(a), h)


# ---- reading results
class Ids:
    """Numbers for points, the same for points closer than a small fraction of the unit."""
    def __init__(self):
        self.d, self.n = {}, 0

    def of(self, p, q=1e-6):
        k = tuple(int(math.floor(x / q)) for x in p)
        dims = len(k)
        near = [()]
        for i in range(dims):
            near = [a + (k[i] + e,) for a in near for e in (0, -1, 1)]
        for a in near:
            if a in self.d:
                return self.d[a]
        self.n += 1
        self.d[k] = self.n
        return self.n


def read2(plcs, pl, K):
    """Pieces (rounded to 1/K), their end points' numbers, and the unrounded y of the vertices."""
    ids, segs, nums, ys = Ids(), [], [], set()
    for p in plcs:
        P = p["points"]
        if any(isinstance(x, str) for x in P):
            return None
        for f in p["facets"] + [g for h in p["holes"] for g in h]:
            if len(f) != 2 or not all(0 <= i < len(P) // 2 for i in f):
                return None
            q = [unput(pl, P[2 * i], P[2 * i + 1]) for i in f]
            if any(abs(c) > 1e5 for v in q for c in v):
                return None
            a, b = [ids.of(v) for v in q]
            if a == b:
                continue
            segs.append([int(round(q[0][0] * K)), int(round(q[0][1] * K)), int(round(q[1][0] * K)), int(round(q[1][1] * K))])
            nums += [[a, -1], [b, 1]]
            ys |= {q[0][1], q[1][1]}
    return segs, sorted(nums), ys


def unput(pl, X, Y):
    x, y = (X - pl.ox) / pl.s, (Y - pl.oy) / pl.s
    return (pl.c * x + pl.n * y, -pl.n * x + pl.c * y)


def read3(plcs, s, org, K):
    ids, faces, nums, at = Ids(), [], [], {}
    for p in plcs:
        P = p["points"]
        if any(isinstance(x, str) for x in P):
            return None
        for f in p["facets"]:
            if not all(0 <= i < len(P) // 3 for i in f):
                return None
            q = [tuple((P[3 * i + k] - org[k]) / s for k in range(3)) for i in f]
            if any(abs(c) > 1e4 for v in q for c in v):
                return None
            n = [ids.of(v) for v in q]
            keep = [i for i in range(len(n)) if n[i] != n[i - 1]]
            if len(keep) < 3:
                continue
            faces.append([[int(round(c * K)) for c in q[i]] for i in keep])
            nums.append([n[i] for i in keep])
            for i in keep:
                at[n[i]] = q[i]
    edges, ends = {}, []
    for f in nums:
        f = through(f, at)
        for i in range(len(f)):
            a, b = f[i - 1], f[i]
            ends.append([edges.setdefault((min(a, b), max(a, b)), len(edges) + 1), 1 if a < b else -1])
    return faces, sorted(ends), at


def through(f, at):
    """The cycle f with the vertices that lie on its sides."""
    out = []
    for i in range(len(f)):
        a, b = at[f[i]], at[f[(i + 1) % len(f)]]
        out.append(f[i])
        d = [b[k] - a[k] for k in range(3)]
        l2 = sum(x * x for x in d)
        on = []
        for v, p in at.items():
            if v in (f[i], f[(i + 1) % len(f)]):
                continue
            e = [p[k] - a[k] for k in range(3)]
            t = sum(x * y for x, y in zip(e, d)) / l2
            if 0 < t < 1 and all(abs(e[k] - t * d[k]) < 2e-6 for k in range(3)):
                on.append((t, v))
        out += [v for _, v in sorted(on)]
    return out


# ---- probes
def diag_probes(r, loops_all, K, n):
    """Places at least 5/K from every side, many of them close to corners and crossings."""
    S = [s for loops in loops_all for s in sides(loops)]
    V = [p for loops in loops_all for P in loops for p in P]
    X = []
    for i, (a, b) in enumerate(S):
        for (c, d) in S[i + 1:]:
            den = (b[0] - a[0]) * (d[1] - c[1]) - (b[1] - a[1]) * (d[0] - c[0])
            if den and shapes.crosses(a, b, c, d):
                t = ((c[0] - a[0]) * (d[1] - c[1]) - (c[1] - a[1]) * (d[0] - c[0])) / den
                X.append((a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])))
    out = []
    for k in range(8 * n):
        m = r.randrange(3)
        if m == 0 or (m == 2 and not X):
            p = (r.randrange(-K, 17 * K), r.randrange(-K, 17 * K))
        else:
            v = r.choice(V if m == 1 else X)
            a, d = r.uniform(0, 6.2832), r.choice([10, 16, 30, 50])
            p = (int(v[0] * K + d * math.cos(a)), int(v[1] * K + d * math.sin(a)))
        if all(dist2_seg((a[0] * K, a[1] * K), (b[0] * K, b[1] * K), p) > 25 for a, b in S):
            out.append(p)
        if len(out) == n:
            break
    return out


def ops_line(op, dst, a, b):
    return "%s %d %d %d" % (op, dst, a, b)


def sessions2(r, ck):
    """(id, kind, input line, session) for the 2D operations; see `trace2`."""
    out = []
    # TLC's sessions on the cells of a grid: every pair of solids on one, longer histories on another
    base = "INIT Init\nNEXT Next\nCONSTANTS NX = %d\nNY = %d\nDepth = %d\nBroken = %s\n"
    t = vp.tlc("CsgModel", base % (3, 2, 0, "FALSE") + "INVARIANT InvLaws\nINVARIANT InvAlgorithm\n", ck.work, "algorithm", timeout=300)
    if not t.ok:
        raise CheckError("CsgModel fails:\n" + t.log[-3000:])
    ck.add_tlc(t)
    tb = vp.tlc("CsgModel", base % (2, 2, 0, "TRUE") + "INVARIANT InvAlgorithm\n", ck.work, "broken", timeout=300)
    if "InvAlgorithm" not in tb.violated:
        raise CheckError("the broken algorithm passes:\n" + tb.log[-2000:])
    th = vp.tlc("CsgModel", base % (2, 2, 2, "FALSE") + "INVARIANT InvLaws\nINVARIANT Emit\n", ck.work, "sessions", timeout=600)
    if not th.ok:
        raise CheckError("CsgModel fails:\n" + th.log[-3000:])
    ck.add_tlc(th)
    hs = sorted(re.findall(r'"HIST (.*)"', th.log))
    ck.cov["parts"]["model"] = {"algorithm_states": t.distinct, "sessions_generated": len(hs), "session_states": th.distinct}
    cells = [(x, y) for x in range(3) for y in range(2)]
    al = [frozenset(c for i, c in enumerate(cells) if m >> i & 1) for m in range(1, 64)]
    pairs = [(a, b) for a in al for b in al]
    for k, (A, B) in enumerate(pairs if scale(1) > 1 else r.sample(pairs, 900)):
        out.append(("p%d" % k, [A, B], [(op, 1, 2) for op in OPS], (3, 2)))
    for k, h in enumerate(r.sample(hs, min(len(hs), scale(500)))):
        a, b, hist = json.loads(json.loads('"' + h + '"'))
        out.append(("h%d" % k, [frozenset(map(tuple, a)), frozenset(map(tuple, b))], [tuple(s) for s in hist], (2, 2)))
    for k in range(scale(120)):                       # bigger grids, longer histories
        n = r.choice([3, 4, 4, 5, 6])
        g = [(x, y) for x in range(n) for y in range(n)]
        d = [frozenset(c for c in g if r.random() < q) for q in (r.choice([.2, .5, .8]), r.choice([.2, .5, .8]))]
        if not d[0] or not d[1]:
            continue
        st, hist = list(d), []
        for _ in range(r.choice([1, 2, 3, 4, 5])):
            op, a, b = r.choice(OPS), r.randrange(len(st)), r.randrange(len(st))
            v = {"union": st[a] | st[b], "intersect": st[a] & st[b], "subtract": st[a] - st[b]}[op]
            if v:
                st.append(v)
                hist.append((op, a + 1, b + 1))
        out.append(("g%d" % k, d, hist, (n, n)))
    return out


PLS = [Placement(), Placement(), Placement(1024.0), Placement(0.01, -3.0, 7.5), Placement(1e4, 1e5, -2e4), Placement(2.0 ** -6)]


def csg2(ck, r, exe):
    lines, info = [], {}
    sess = sessions2(r, ck)
    def add(cid, kind, pl, loops, hist, holes, K, cell, extra):
        l = "%s %s %d %s %s" % (cid, kind, len(loops) + len(hist), " ".join("def %d %s" % (i, loops_line(L, pl, holes)) for i, L in enumerate(loops)),
                                " ".join(ops_line(op, len(loops) + i, a - 1, b - 1) for i, (op, a, b) in enumerate(hist)))
        lines.append(l)
        info[cid] = dict(pl=pl, loops=loops, hist=hist, K=K, cell=cell, line=l, **extra)
    for cid, d, hist, dims in sess:
        if len(hist) > 6 or not hist:
            hist = hist[:6]
            if not hist:
                continue
        kind = "2i" if r.random() < 0.15 else "2d"
        pl = Placement(r.choice([1.0, 8.0, 1024.0])) if kind == "2i" else r.choice(PLS + [Placement(1.0, 0.0, 0.0, r.uniform(0, 3))])
        add(cid, kind, pl, [cell_loops(S) for S in d], hist, r.choice([0, 1, 2]), 4, 4, {"cells": dims})
    for k in range(scale(450)):                       # slanted sides
        P, Q = polygon(r), polygon(r)
        d = [[P], [Q]]
        if r.random() < 0.25:                         # a hole
            h = polygon(r, 6, 3)
            h = [(x + 5, y + 5) for x, y in h]
            if all(shapes.in_poly(P, p) > 0 for p in h) and not any(shapes.crosses(a, b, c, e) for a, b in sides([P]) for c, e in sides([h])):
                d[0].append(h[::-1])
        pl = r.choice(PLS[:5] + [Placement(3.0, 2.0, -5.0, r.uniform(0, 6))])
        # a later operation may leave nothing, or only slivers: it is not asked for
        add("s%d" % k, "2d", pl, d, [(op, 1, 2) for op in OPS], r.choice([1, 2]), 64, 0, {})
    return lines, info


def trace2(ck, r, lines, info, exe, name):
    res = vp.run_cases(exe, lines, ck.work, name, per_case=2.0, base=60.0)
    tl, ids, skipped = [], [], 0
    for cid, i in info.items():
        rec = res.get(cid, {})
        if "crash" in rec:
            ck.violation("a session of Boolean operations ends abnormally (%s): %s" % (rec["crash"], i["line"][:300]), {"line": i["line"]})
            continue
        if "steps" not in rec:
            continue
        pl, K, steps, bad, ys = i["pl"], i["K"], [], False, set()
        for (op, a, b), s in zip(i["hist"], rec["steps"]):
            x = read2(s["plcs"], pl, K)
            if x is None:
                ck.violation("the %s has broken facets: %s" % (op, i["line"][:300]), {"line": i["line"], "step": s})
                bad = True
                break
            ys |= x[2]
            steps.append({"op": op, "a": a, "b": b, "out": x[0], "ids": x[1], "kept": s["kept"]})
        if bad:
            continue
        if i["cell"]:
            pr = [[4 * x + 2, 4 * y + 2] for x in range(-1, i["cells"][0] + 1) for y in range(-1, i["cells"][1] + 1)]
        else:
            pr = [p for p in diag_probes(r, i["loops"], K, 30) if all(abs(p[1] - y * K) > 2 for y in ys)][:16]
            if len(pr) < 4:
                skipped += 1
                continue
        defs = [[[a[0] * K, a[1] * K, b[0] * K, b[1] * K] for a, b in sides(L)] for L in i["loops"]]
        tl.append({"dim": 2, "cell": i["cell"], "probes": pr, "defs": defs, "steps": steps})
        ids.append(i["line"])
    return tl, ids, skipped


def csg3(ck, r, exe):
    K = 32
    lines, info = [], {}
    def add(cid, d, hist, s, org, probes, holes=((), ())):
        l = "%s 3d %d %s %s" % (cid, len(d) + len(hist), " ".join("def %d %s" % (i, faces_line(F, s, org, holes[i])) for i, F in enumerate(d)),
                                " ".join(ops_line(op, len(d) + i, a - 1, b - 1) for i, (op, a, b) in enumerate(hist)))
        lines.append(l)
        info[cid] = dict(d=[list(F) + list(holes[i]) for i, F in enumerate(d)], hist=hist, s=s, org=org, probes=probes, line=l)
    O = (16, 5, 13)
    for k in range(scale(160)):
        n = r.choice([2, 2, 2, 3])
        g = [(x, y, z) for x in range(n) for y in range(n) for z in range(n)]
        S = [frozenset(c for c in g if r.random() < q) for q in (r.choice([.3, .6]), r.choice([.3, .6]))]
        if r.random() < 0.3:
            lo = [r.randrange(n) for _ in range(3)]
            hi = [r.randrange(a + 1, n + 1) for a in lo]
            S[1] = frozenset((x, y, z) for x in range(lo[0], hi[0]) for y in range(lo[1], hi[1]) for z in range(lo[2], hi[2]))
            F1 = shapes.box_faces(lo, hi)
        elif not S[1]:
            continue
        else:
            F1 = shapes.cube_faces(S[1])
        if not S[0]:
            continue
        hist, st = [], list(S)
        for _ in range(r.choice([1, 2, 3])):
            op, a, b = r.choice(OPS), r.randrange(len(st)), r.randrange(len(st))
            v = {"union": st[a] | st[b], "intersect": st[a] & st[b], "subtract": st[a] - st[b]}[op]
            st.append(v)
            hist.append((op, a + 1, b + 1))
            if not v:
                break
        pr = [[32 * c[i] + O[i] for i in range(3)] for c in ((x, y, z) for x in range(-1, n + 1) for y in range(-1, n + 1) for z in range(-1, n + 1))]
        if len(pr) > 70:
            pr = r.sample(pr, 70)
        s, org = r.choice([(1.0, (0, 0, 0)), (100.0, (5.0, -7.0, 300.0)), (0.05, (0, 0, 0)), (64.0, (0, 0, 0))])
        add("v%d" % k, [shapes.cube_faces(S[0]), F1], hist, s, org, pr)
    # a box with a hole given as a hole
    for k in range(scale(12)):
        n = 3
        A = shapes.box_faces((0, 0, 0), (3, 3, 3))
        h = shapes.box_faces((1, 1, 1), (2, 2, 2))
        h = [f[::-1] for f in h]
        lo = [r.randrange(3) for _ in range(3)]
        hi = [r.randrange(a + 1, 4) for a in lo]
        pr = [[32 * x + 16, 32 * y + 5, 32 * z + 13] for x in range(3) for y in range(3) for z in range(3)]
        add("w%d" % k, [A, shapes.box_faces(lo, hi)], [(r.choice(("union", "subtract")), 1, 2)], 1.0, (0, 0, 0), pr, (h, ()))
        add("x%d" % k, [shapes.box_faces(lo, hi), A], [("subtract", 1, 2)] if lo != [0, 0, 0] and (lo == [1, 1, 1]) else [("union", 1, 2)], 1.0, (0, 0, 0), pr, ((), h))
    # slanted faces
    def body():
        while True:
            m = r.randrange(3)
            if m == 0:
                lo = [r.randrange(7) for _ in range(3)]
                return shapes.box_faces(lo, [r.randrange(a + 1, 9) for a in lo])
            if m == 1:
                return shapes.octa_faces([r.randrange(3, 6) for _ in range(3)], r.randrange(2, 4))
            f = shapes.tetra_faces([tuple(r.randrange(9) for _ in range(3)) for _ in range(4)])
            if f and abs(shapes.dot3(shapes.cross3(shapes.sub(f[0][1], f[0][0]), shapes.sub(f[0][2], f[0][0])), shapes.sub(f[1][2], f[0][0]))) > 30:
                return f
    for k in range(scale(150)):
        d = [body(), body()]
        planes = []
        for F in d:
            for f in F:
                nn = shapes.cross3(shapes.sub(f[1], f[0]), shapes.sub(f[2], f[0]))
                planes.append((nn, shapes.dot3(nn, f[0]), math.sqrt(shapes.dot3(nn, nn))))
        pr = []
        for _ in range(120):
            p = [r.randrange(-10, 8 * K + 10) for _ in range(3)]
            if all(abs(shapes.dot3(nn, p) - w * K) > 4 * l for nn, w, l in planes):
                pr.append(p)
        def inside(F, p):
            return all(shapes.dot3(shapes.cross3(shapes.sub(f[1], f[0]), shapes.sub(f[2], f[0])), [p[i] - K * f[0][i] for i in range(3)]) < 0 for f in F)
        both = sum(inside(d[0], p) and inside(d[1], p) for p in pr)
        only = sum(inside(d[0], p) and not inside(d[1], p) for p in pr)
        ops = ["union"] + (["intersect"] if both else []) + (["subtract"] if only else [])
        s, org = r.choice([(1.0, (0, 0, 0)), (1.0, (0, 0, 0)), (20.0, (3.0, 4.0, -50.0))])
        add("t%d" % k, d, [(op, 1, 2) for op in ops], s, org, pr[:24])
    return lines, info, K


def trace3(ck, r, lines, info, exe, K):
    res = vp.run_cases(exe, lines, ck.work, "csg3", per_case=3.0, base=60.0)
    tl, ids = [], []
    for cid, i in info.items():
        rec = res.get(cid, {})
        if "crash" in rec:
            ck.violation("a session of Boolean operations in 3D ends abnormally (%s): %s" % (rec["crash"], i["line"][:300]), {"line": i["line"]})
            continue
        if "steps" not in rec:
            continue
        steps, bad = [], False
        for (op, a, b), s in zip(i["hist"], rec["steps"]):
            x = read3(s["plcs"], i["s"], i["org"], K)
            if x is None:
                ck.violation("the 3D %s has broken facets: %s" % (op, i["line"][:300]), {"line": i["line"], "step": s})
                bad = True
                break
            steps.append({"op": op, "a": a, "b": b, "out": x[0], "ids": x[1], "kept": s["kept"]})
        if bad:
            continue
        # seen along x, a probe must not be on the image of an edge: only rounded ones can be
        pr = i["probes"]
        if cid[0] == "t":
            E = [(f[j - 1], f[j]) for s in steps for f in s["out"] for j in range(len(f))]
            pr = [p for p in pr if all(dist2_seg(a[1:], b[1:], p[1:]) > 4 for a, b in E)]
        tl.append({"dim": 3, "cell": 0, "probes": pr, "defs": [[[[c * K for c in v] for v in f] for f in F] for F in i["d"]], "steps": steps})
        ids.append(i["line"])
    return tl, ids


def bg(ck, r, exe):
    lines, info, tl, ids = [], {}, [], []
    for k in range(scale(300)):
        slanted = r.random() < 0.35
        if slanted:
            loops, K, cell, dims = [[polygon(r)] for _ in range(3)], 64, 0, None
        else:
            n, sol = r.choice([3, 4, 5]), []
            g = [(x, y) for x in range(n) for y in range(n)]
            while len(sol) < 3:
                S = frozenset(c for c in g if r.random() < r.choice([.4, .6, .8]))
                if r.random() < 0.3:
                    x0, y0 = r.randrange(n), r.randrange(n)
                    S = frozenset((x, y) for x in range(x0, r.randrange(x0, n) + 1) for y in range(y0, r.randrange(y0, n) + 1))
                # Boost.Geometry itself loses pieces that touch at single points
                if cells_simple(S) and all(no_contact(T) for R in sol for T in (S | R, S & R, S - R, R - S)) and no_contact(S.union(*sol)):
                    sol.append(S)
            loops, K, cell, dims = [cell_loops(S) for S in sol], 4, 4, (n, n)
        pl = r.choice(PLS[:5])
        steps = [("union", 1, 2), ("intersect", 1, 2), ("subtract", 1, 2), ("reduce", [1, 2, 3]), ("meets", 1, 3), ("self", 1)]
        if slanted:
            pr = diag_probes(r, loops, K, 30)
        else:
            pr = [[4 * x + 2, 4 * y + 2] for x in range(-1, n + 1) for y in range(-1, n + 1)]
            if r.random() < 0.3:
                steps[1] = ("intersect", 1, 3)
        info["b%d" % k] = dict(pl=pl, K=K, cell=cell, probes=pr, loops=loops)
        for j in r.sample(range(len(pr)), min(3, len(pr))):
            steps.append(("within", r.randrange(1, 4), j))
        def inside(L, p):
            return sum((1 if area2(P) > 0 else -1) for P in L if shapes.in_poly([(a * K, b * K) for a, b in P], p) > 0) == 1
        both = [p for p in pr if inside(loops[0], p) and inside(loops[1], p)]
        if both:
            steps.append(("clip", 1, 2, r.choice(both)))
        toks = []
        for s in steps:
            if s[0] in OPS:
                toks.append(ops_line(s[0], 7, s[1] - 1, s[2] - 1))
            elif s[0] == "reduce":
                toks.append("reduce 7 %d %s" % (len(s[1]), " ".join(str(x - 1) for x in s[1])))
            elif s[0] == "meets":
                toks.append("meets %d %d" % (s[1] - 1, s[2] - 1))
            elif s[0] == "self":
                toks.append("self %d" % (s[1] - 1))
            elif s[0] == "within":
                x, y = pl.put((pr[s[2]][0] / K, pr[s[2]][1] / K))
                toks.append("within %d %.17g %.17g" % (s[1] - 1, x, y))
            else:
                x, y = pl.put((s[3][0] / K, s[3][1] / K))
                toks.append("clip 7 %d %d %.17g %.17g" % (s[1] - 1, s[2] - 1, x, y))
        l = "b%d bg %d %s %s" % (k, 3 + len(steps), " ".join("def %d %s" % (i, loops_line(L, pl, r.choice([1, 2]))) for i, L in enumerate(loops)), " ".join(toks))
        lines.append(l)
        info["b%d" % k].update(steps=steps, line=l)
    res = vp.run_cases(exe, lines, ck.work, "bg", per_case=2.0, base=60.0)
    for cid, i in info.items():
        rec = res.get(cid, {})
        if "crash" in rec:
            ck.violation("a session of Boost operations ends abnormally (%s): %s" % (rec["crash"], i["line"][:300]), {"line": i["line"]})
            continue
        if "steps" not in rec:
            continue
        steps, bad, ys = [], False, set()
        for s, q in zip(i["steps"], rec["steps"]):
            x = read2(q["plcs"], i["pl"], i["K"])
            each = [read2([p], i["pl"], i["K"]) for p in q["plcs"]]
            if x is None:
                ck.violation("the %s has broken facets: %s" % (s[0], i["line"][:300]), {"line": i["line"], "step": q})
                bad = True
                break
            ys |= x[2]
            t = {"op": s[0], "a": s[1] if not isinstance(s[1], list) else 0, "b": s[2] if len(s) > 2 else 0, "of": s[1] if isinstance(s[1], list) else [],
                 "out": x[0], "outs": [e[0] for e in each], "ids": x[1], "kept": q["kept"], "answer": q["answer"], "probe": s[2] + 1 if s[0] == "within" else 0,
                 "at": list(s[3]) if s[0] == "clip" else [0, 0]}
            if s[0] == "meets":
                A, B = i["loops"][s[1] - 1], i["loops"][s[2] - 1]
                t["op"] = "meets" if i["cell"] else "touch"
            steps.append(t)
        if bad:
            continue
        pr = i["probes"]
        if not i["cell"]:
            drop = {j for j, p in enumerate(pr) if any(abs(p[1] - y * i["K"]) <= 2 for y in ys)}
            steps = [s for s in steps if not (s["op"] == "within" and s["probe"] - 1 in drop) and not (s["op"] == "clip" and any(abs(s["at"][1] - y * i["K"]) <= 2 for y in ys))]
            new = {}
            for j in range(len(pr)):
                if j not in drop:
                    new[j + 1] = len(new) + 1
            for s in steps:
                if s["op"] == "within":
                    s["probe"] = new[s["probe"]]
            pr = [p for j, p in enumerate(pr) if j not in drop]
            if len(pr) < 4:
                continue
        defs = [[[a[0] * i["K"], a[1] * i["K"], b[0] * i["K"], b[1] * i["K"]] for a, b in sides(L)] for L in i["loops"]]
        tl.append({"dim": 2, "cell": i["cell"], "probes": pr, "defs": defs, "steps": steps})
        ids.append(i["line"])
    return tl, ids


def c15():
    ck = Check("C15", "model_checking")
    r = vp.rng("C15")
    exe = driver()
    inv = ["InvEncloses", "InvClosed", "InvArea", "InvKept", "InvClip", "InvWithin", "InvMeets", "InvSelf"]
    def decide(tl, ids, name):
        t, bad = vp.check_cases("CsgTrace", tl, inv, ck.work, name, timeout=850)
        ck.cov["parts"].setdefault("seconds", {})[name] = round(time.time() - ck.t0, 1)
        ck.add_tlc(t)
        ck.cov["evaluations"] += sum(len(x["steps"]) for x in tl)
        ck.cov["traces_validated_against_impl"] += len(tl)
        for k in (0, len(ids) - 1):
            ck.sample({"session": ids[k][:300]})
        for k, i in sorted(set(bad))[:40]:
            ck.violation("%s fails in the session %s" % (i, ids[k][:500]), {"invariant": i, "line": ids[k], "trace": tl[k]})
    lines, info = csg2(ck, r, exe)
    tl, ids, skipped = trace2(ck, r, lines, info, exe, "csg2")
    ck.cov["parts"]["csg2"] = {"sessions": len(tl), "operations": sum(len(x["steps"]) for x in tl), "too_few_probes": skipped}
    decide(tl, ids, "trace2")
    lines, info, K = csg3(ck, r, exe)
    tl, ids = trace3(ck, r, lines, info, exe, K)
    ck.cov["parts"]["csg3"] = {"sessions": len(tl), "operations": sum(len(x["steps"]) for x in tl)}
    decide(tl, ids, "trace3")
    tl, ids = bg(ck, r, exe)
    ck.cov["parts"]["boost"] = {"sessions": len(tl), "operations": sum(len(x["steps"]) for x in tl)}
    decide(tl, ids, "tracebg")
    return ck.finish()
