"""C01-C05, C20: tessellations recorded from the library, decided by TessTrace/DegenTrace/HistoryTrace."""
import json, os, itertools
import vp, vpbuild, exact
from vp import Check, CheckError, THOROUGH
from geom import *

TOPO = ["InvIndices", "InvClosed", "InvFaceCells", "InvShared", "InvDistinct", "InvUsed", "InvEuler"]
VORO = ["InvIndices", "InvOneCell", "InvNearest", "InvBisect", "InvConvex", "InvPositive", "InvOwn", "InvProbes", "InvModel", "InvArea"]
TILE = ["InvIndices", "InvOneCell", "InvPositive", "InvArea", "InvOnce", "InvOutside", "InvProbes"]
BOUND = ["InvIndices", "InvBFaces", "InvBNodes", "InvBLoops", "InvFollows", "InvCorners"]
DOMS = {d.name: d for d in CONVEX + NONCONVEX + HOLED}
DATA = os.path.join(vp.HERE, "data")


def driver(check):
    return vpbuild.build("tess", ["tess.cc"])


def line_of(cid, op, fresh, g, d, pl, tol=None):
    """One harness line for a request."""
    pts = rl(pl.flat(g))
    t = "" if tol is None else " " + repr(float(tol))
    pre = "" if tol is None else "d"
    if d is None:
        return "%s %sunb %d %s%s" % (cid, pre, fresh, pts, t)
    loops = d.outer + sum(d.holes, [])
    if op == "box":
        lo, hi = pl.put(d.lo), pl.put(d.hi)
        return "%s %sbox %d %s%s %s %s" % (cid, pre, fresh, pts, t, rl(lo), rl(hi))
    return "%s %s%s %d %s%s %s %s" % (cid, pre, op, fresh, pts, t, rl(pl.flat(loops)), plc_toks(len(d.outer), d.holes))


class Case:
    def __init__(self, cid, d, g, pl, op="plc", fresh=1, wide=False, key=None):
        self.id, self.d, self.g, self.pl, self.op, self.fresh, self.wide, self.key = cid, d, g, pl, op, fresh, wide, key

    def line(self):
        return line_of(self.id, self.op, self.fresh, self.g, self.d, self.pl)

    def desc(self):
        return {"domain": self.d.name if self.d else "unbounded", "outer": self.d.outer if self.d else [], "holes": self.d.holes if self.d else [],
                "generators": self.g, "placement": self.pl.desc(), "call": self.op, "line": self.line()}


def is_box(d):
    return d is not None and not d.holes and len(d.outer) == 4 and d.outer == [(d.lo[0], d.lo[1]), (d.hi[0], d.lo[1]), (d.hi[0], d.hi[1]), (d.lo[0], d.hi[1])]


def pick_gens(r, d, sizes):
    pts = d.points() if d else [(x, y) for x in range(1, 16) for y in range(1, 16)]
    n = min(r.choice(sizes), len(pts))
    if d is None:
        n = max(n, 2)
    k = r.randrange(10)
    if k == 0:      # a lattice block, full of cocircular points
        s = r.choice([2, 3])
        pts = [p for p in pts if p[0] % s == 0 and p[1] % s == 0] or pts
        return r.sample(pts, min(max(n, 4), len(pts)))
    if k == 1:      # nearly all on one line
        x = r.choice(sorted({p[0] for p in pts}))
        col = [p for p in pts if p[0] == x]
        return r.sample(col, min(n, len(col)))
    if k == 2:      # a cluster
        c = r.choice(pts)
        near = sorted(pts, key=lambda p: (p[0] - c[0]) ** 2 + (p[1] - c[1]) ** 2)[:max(n, 9)]
        return r.sample(near, min(n, len(near)))
    return r.sample(pts, n)


def random_cases(r, kinds, prefix, sizes=(1, 2, 3, 4, 5, 7, 9, 12, 16, 24)):
    """kinds: list of (name, count)."""
    out = []
    for kind, count in kinds:
        doms = {"unb": [None], "convex": CONVEX, "nonconvex": NONCONVEX, "holed": HOLED}[kind]
        made = 0
        while made < count:
            d = r.choice(doms)
            pl = r.choice(placements(r, 6))
            g = pick_gens(r, d, sizes)
            if d is not None and len(g) < 1:
                continue
            if d is None and (len(g) < 2):
                continue
            if kind in ("nonconvex", "holed") and exact.classify(g, d.outer, d.holes) != "plain":
                continue
            op = "plc" if r.random() < 0.7 else "rplc"
            if is_box(d) and pl.n == 0.0 and r.random() < 0.5:
                op = "box"
            out.append(Case("%s%d" % (prefix + kind[0], made), d, g, pl, op, r.randrange(2)))
            made += 1
    return out


def curated(name, prefix):
    out = []
    for i, e in enumerate(json.load(open(os.path.join(DATA, name)))):
        pl = Placement(*e.get("pl", [1.0, 0.0, 0.0, 0.0]))
        out.append(Case("%s%d" % (prefix, i), DOMS[e["dom"]], [tuple(p) for p in e["g"]], pl, "plc", 1, key=e.get("key")))
    return out


def run(check, cases, inv, name, nprobes=20, r=None):
    """Run every case on the library and have TLC decide the invariants on what came back."""
    exe = driver(check)
    r = r or vp.rng(check.pid, name, "probes")
    res = vp.run_cases(exe, [c.line() for c in cases], check.work, name)
    tl, ids = [], []
    for c in cases:
        rec = res.get(c.id, {"crash": "no record"})
        if rec.get("skipped"):
            continue
        if "crash" in rec:
            check.violation("the library ends abnormally (%s) on %s" % (rec["crash"], json.dumps(c.desc())[:500]), {"case": c.desc(), "log": rec.get("log", "")}, c.key)
            continue
        if not finite(rec):
            check.violation("a node coordinate is not finite on %s" % json.dumps(c.desc())[:500], {"case": c.desc()}, c.key)
            continue
        if c.d is None:
            lo, hi = (min(p[0] for p in c.g), min(p[1] for p in c.g)), (max(p[0] for p in c.g), max(p[1] for p in c.g))
            pr = probes(r, None, nprobes, Q, lo, hi)
        else:
            pr = probes(r, c.d, nprobes, Q)
        req = request(c.g, c.d, pr)
        if c.d is not None:
            req["cornerNodes"] = [exact_nodes(rec, *c.pl.put(p)) for p in c.d.outer + sum(c.d.holes, [])]
        mesh = mesh_of(rec, c.pl, req["S"])
        if any(abs(x) > 2 ** 30 for p in mesh["nodes"] for x in p):
            check.violation("a node lies far outside any sensible bound on %s" % json.dumps(c.desc())[:500], {"case": c.desc()}, c.key)
            continue
        tl.append({"req": req, "mesh": mesh})
        ids.append(c)
    if not tl:
        return
    t, bad = vp.check_cases("TessTrace", tl, inv, check.work, name)
    check.add_tlc(t)
    check.cov["evaluations"] += len(tl) * len(inv)
    check.cov["traces_validated_against_impl"] += len(tl)
    check.cov["parts"][name] = {"requests": len(tl), "cells": sum(len(x["mesh"]["cells"]) for x in tl), "predicates": inv}
    for k in range(0, len(tl), max(1, len(tl) // 2)):
        check.sample({"request": ids[k].desc(), "cells": len(tl[k]["mesh"]["cells"]), "nodes": len(tl[k]["mesh"]["nodes"])})
    for k, i in sorted(set(bad)):
        c = ids[k]
        check.violation("%s fails on %s" % (i, json.dumps(c.desc())[:700]), {"invariant": i, "case": c.desc(), "trace": tl[k]}, c.key and c.key + "/" + i)


def scale(n):
    return n * 12 if THOROUGH else n


def large_cases(r, count):
    """Real-valued generators (not on a grid), many cells; topology only."""
    out = []
    for k in range(count):
        n = r.choice([60, 150, 300])
        d = r.choice([BOX16, HEXA, TRI, None])
        g = []
        while len(g) < n:
            p = (r.uniform(0.2, 15.8), r.uniform(0.2, 15.8))
            if d is None or all(cross(d.outer[i], d.outer[(i + 1) % len(d.outer)], p) > 0.05 for i in range(len(d.outer))):
                g.append(p)
        out.append(Case("L%d" % k, d, g, Placement(r.choice([1.0, 0.01, 250.0]), 0, 0, r.choice([0.0, 0.7])), "plc", 1))
    return out


def c01():
    ck = Check("C01", "model_checking")
    r = vp.rng("C01")
    cs = random_cases(r, [("unb", scale(260)), ("convex", scale(260)), ("nonconvex", scale(160)), ("holed", scale(90))], "a")
    run(ck, cs, TOPO, "random")
    run(ck, curated("orphans.json", "o"), TOPO, "orphans")
    run(ck, curated("known_C01.json", "k"), TOPO, "known")
    big(ck, large_cases(r, scale(8)), TOPO)
    return ck.finish()


def big(ck, cases, inv):
    exe = driver(ck)
    res = vp.run_cases(exe, [c.line() for c in cases], ck.work, "large")
    tl, ids = [], []
    for c in cases:
        rec = res.get(c.id, {"crash": "no record"})
        if "crash" in rec:
            ck.violation("the library ends abnormally (%s) on %d real-valued generators in %s" % (rec["crash"], len(c.g), c.d.name if c.d else "the plane"), {"case": c.desc()})
            continue
        if rec.get("skipped"):
            continue
        req = request([], c.d, [])
        tl.append({"req": dict(req, gens=[]), "mesh": mesh_of(rec, c.pl, 1 << 8)})
        ids.append(c)
        if len(rec["cells"]) != len(c.g):
            ck.violation("%d cells for %d generators" % (len(rec["cells"]), len(c.g)), {"case": c.desc()})
    t, bad = vp.check_cases("TessTrace", tl, inv, ck.work, "large")
    ck.add_tlc(t)
    ck.cov["evaluations"] += len(tl) * len(inv)
    ck.cov["traces_validated_against_impl"] += len(tl)
    ck.cov["parts"]["large"] = {"requests": len(tl), "cells": sum(len(x["mesh"]["cells"]) for x in tl)}
    for k, i in sorted(set(bad)):
        ck.violation("%s fails on %d real-valued generators in %s" % (i, len(ids[k].g), ids[k].d.name if ids[k].d else "the plane"), {"invariant": i, "case": ids[k].desc()})


def design(ck, kind, w, h, m):
    cfg = ("INIT Init\nNEXT Next\nCONSTANTS W = %d\nH = %d\nMaxGens = %d\nOuterKind = \"%s\"\n"
           "INVARIANT ProperCells\nINVARIANT Equidistant\nINVARIANT Tiles\nINVARIANT NoHangingNodes\n" % (w, h, m, kind))
    t = vp.tlc("VoronoiDesign", cfg, ck.work, "design_%s" % kind, timeout=3000 if THOROUGH else 400)
    if not t.ok:
        raise CheckError("the design model fails:\n" + t.log[-3000:])
    ck.add_tlc(t)
    ck.cov["parts"]["design_%s" % kind] = {"states": t.distinct, "transitions": t.generated}


WGRID = 64


def wide_cases(r, count):
    """Integer generators on a 64-grid: longer bisectors, more cells."""
    W = Domain("box64", [(0, 0), (64, 0), (64, 64), (0, 64)])
    T = Domain("tri64", [(0, 3), (64, 0), (30, 63)])
    out = []
    for k in range(count):
        d = r.choice([W, T])
        pts = d.points()
        out.append(Case("w%d" % k, d, r.sample(pts, r.choice([6, 20, 40])), r.choice(placements(r, 4)), "plc", 1, wide=True))
    return out


def c02():
    ck = Check("C02", "model_checking")
    r = vp.rng("C02")
    if THOROUGH:
        design(ck, "box", 5, 5, 5)
        design(ck, "tri", 6, 6, 4)
    else:
        design(ck, "box", 4, 4, 3)
        design(ck, "tri", 5, 5, 3)
    run(ck, random_cases(r, [("unb", scale(300)), ("convex", scale(500))], "a"), VORO, "random", 25)
    wide(ck, wide_cases(r, scale(16)), ["InvIndices", "InvOneCell", "InvNearest", "InvBisect", "InvPositive"])
    return ck.finish()


def wide(ck, cases, inv):
    exe = driver(ck)
    S = 1 << 14
    res = vp.run_cases(exe, [c.line() for c in cases], ck.work, "wide")
    tl, ids = [], []
    for c in cases:
        rec = res.get(c.id, {"crash": "no record"})
        if rec.get("skipped"):
            continue
        if "crash" in rec or not finite(rec):
            ck.violation("no proper result (%s) on %s" % (rec.get("crash", "not finite"), json.dumps(c.desc())[:500]), {"case": c.desc()})
            continue
        req = dict(request(c.g, c.d, []), S=S, A=1 << 7, tolN=256, tolX=256)
        m = mesh_of(rec, c.pl, S)
        tl.append({"req": req, "mesh": m})
        ids.append(c)
    t, bad = vp.check_cases("TessTrace", tl, inv, ck.work, "wide")
    ck.add_tlc(t)
    ck.cov["evaluations"] += len(tl) * len(inv)
    ck.cov["traces_validated_against_impl"] += len(tl)
    ck.cov["parts"]["wide"] = {"requests": len(tl), "cells": sum(len(x["mesh"]["cells"]) for x in tl)}
    for k, i in sorted(set(bad)):
        ck.violation("%s fails on %s" % (i, json.dumps(ids[k].desc())[:700]), {"invariant": i, "case": ids[k].desc(), "trace": tl[k]})


def c03():
    ck = Check("C03", "model_checking")
    r = vp.rng("C03")
    run(ck, random_cases(r, [("convex", scale(120)), ("nonconvex", scale(330)), ("holed", scale(170))], "a"), TILE, "random", 40)
    run(ck, curated("orphans.json", "o"), TILE, "orphans", 40)
    run(ck, curated("known_C03.json", "k"), TILE, "known")
    return ck.finish()


def c04():
    ck = Check("C04", "model_checking")
    r = vp.rng("C04")
    run(ck, random_cases(r, [("unb", scale(200)), ("convex", scale(330)), ("nonconvex", scale(260)), ("holed", scale(130))], "a"), BOUND, "random")
    run(ck, curated("orphans.json", "o"), BOUND, "orphans")
    return ck.finish()


# ---------------------------------------------------------------- C05

def c05():
    ck = Check("C05", "model_checking")
    r = vp.rng("C05")
    exe = driver(ck)
    lines, info = [], {}
    n = scale(420)
    for k in range(n):
        d = r.choice([None, BOX16, BOXR, TRI, HEXA])
        pts = d.points() if d else [(x, y) for x in range(1, 16) for y in range(1, 16)]
        # sub-grid offsets: generators are in 1/64 grid units here
        base = r.sample(pts, r.choice([2, 3, 4, 6, 9]))
        if d is None and len(base) < 2:
            continue
        g = []
        tol = r.choice([0, 1, 2, 4, 8])         # in 1/64 units
        for p in base:
            for _ in range(r.choice([1, 1, 2, 3])):
                o = r.choice([(0, 0), (0, 0), (1, 0), (0, 1), (1, 1), (-1, 2), (3, -2)])
                g.append((p[0] * 64 + o[0], p[1] * 64 + o[1]))
        if r.random() < 0.3:
            # generators that share one coordinate exactly
            x, y = g[0]
            g += [(x, q[1] * 64) for q in base[1:3] if d is None or d.inside((x // 64, q[1])) and x % 64 == 0]
        r.shuffle(g)
        if d is not None:
            g = [p for p in g if all(cross(d.outer[i], d.outer[(i + 1) % len(d.outer)], (p[0] / 64.0, p[1] / 64.0)) > 0.2 for i in range(len(d.outer)))]
        if len({p for p in g}) < 2 or not g:
            continue
        s = r.choice([1.0, 0.25, 4.0])
        pl = Placement(s / 64.0, r.choice([0.0, -3.0]) * s, r.choice([0.0, 8.0]) * s)
        cid = "d%d" % k
        dd = Domain(d.name, [(64 * p[0], 64 * p[1]) for p in d.outer]) if d else None
        op = "plc" if d is None or r.random() < 0.5 else "rplc"
        if is_box(d) and r.random() < 0.5:
            op = "box"
        info[cid] = (dd, g, pl, tol, op, d)
        # a tolerance given as zero means exact coincidence only
        lines.append(line_of(cid, op, r.randrange(2), g, dd, pl, tol=tol * s / 64.0 if tol else 1e-9 * s))
    res = vp.run_cases(exe, lines, ck.work, "degen")
    tl, ids = [], []
    byid = {l.split()[0]: l for l in lines}
    for cid, (dd, g, pl, tol, op, d) in info.items():
        rec = res.get(cid, {"crash": "no record"})
        rep = {"generators_64ths": g, "tolerance_64ths": tol, "call": op, "domain": d.name if d else "unbounded", "placement": pl.desc(), "line": byid[cid]}
        if rec.get("skipped"):
            continue
        if "crash" in rec or not finite(rec):
            ck.violation("no proper result (%s) on %s" % (rec.get("crash", "not finite"), json.dumps(rep)[:500]), {"case": rep})
            continue
        S = 1 << 4    # nodes in 1/16 of 1/64 grid units
        mesh = mesh_of(rec, pl, S)
        tl.append({"gens": [list(p) for p in g], "tol": tol, "map": rec["map"], "S": S, "mesh": mesh, "kept": rec["inputsKept"]})
        ids.append(rep)
    inv = ["InvMapShape", "InvFirstSeen", "InvSame", "InvWithin", "InvApart", "InvRepresentatives", "InvKept"]
    t, bad = vp.check_cases("DegenTrace", tl, inv, ck.work, "degen")
    ck.add_tlc(t)
    ck.cov["evaluations"] = len(tl) * len(inv)
    ck.cov["traces_validated_against_impl"] = len(tl)
    merged = sum(1 for x in tl if len(x["map"]) > len(x["mesh"]["cells"]))
    ck.cov["parts"]["degen"] = {"requests": len(tl), "with_merged_generators": merged}
    for k in range(0, len(tl), max(1, len(tl) // 2)):
        ck.sample({"request": ids[k], "map": tl[k]["map"]})
    for k, i in sorted(set(bad)):
        ck.violation("%s fails on %s: map %s" % (i, json.dumps(ids[k])[:500], tl[k]["map"]), {"invariant": i, "case": ids[k], "trace": tl[k]})
    return ck.finish()
