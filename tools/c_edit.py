"""C10, C11: histories of mesh edits replayed on the library, decided by DeleteTrace and CleanTrace."""
import json, os, re, math
import vp, vpbuild, exact
from vp import Check, CheckError, THOROUGH
from geom import *
from c_tess import DOMS, DATA, line_of, is_box, pick_gens, scale, random_cases, Case


def driver():
    return vpbuild.build("edit", ["edit.cc"])


def hexed(rec, dim=2):
    """A mesh whose coordinates are digit strings."""
    n = rec["nodes"]
    return {"nodes": [" ".join(float(x).hex() for x in n[dim * i:dim * i + dim]) for i in range(len(n) // dim)],
            "faces": rec["faces"], "cells": rec["cells"], "faceCells": rec["faceCells"], "bnodes": rec["bnodes"], "bfaces": rec["bfaces"],
            "neighbors": rec["neighbors"], "sharedNodes": rec["sharedNodes"], "sharedFaces": rec["sharedFaces"],
            "hull": len(rec["hull"]["facets"]) + len(rec["hull"]["holes"])}


def il(xs):
    return " ".join(str(x) for x in [len(xs)] + list(xs))


def share_tokens(r, m, k, dim=2):
    """k made-up neighbours that share random nodes and faces."""
    nn, nf = len(m["nodes"]) // dim, len(m["faces"])
    s = ["share", str(k)]
    for d in range(k):
        a = r.sample(range(nn), r.randrange(0, min(nn, 9) + 1))
        b = r.sample(range(nf), r.randrange(0, min(nf, 7) + 1))
        s += [str(d + 1), il(a), il(b)]
    return " ".join(s)


def step_tokens(step, ncells):
    D = step["cells"]
    if step["how"] == "mask":
        return "mask " + il([0 if c in D else 1 for c in range(ncells)])
    return "list " + il(D)


def bases(ck, r, want):
    """Small meshes made by the library, as model bases: {case: mesh}."""
    exe = driver()
    cs = [c for c in random_cases(r, [("unb", 8), ("convex", 24), ("nonconvex", 8), ("holed", 6)], "b", sizes=(3, 4, 5))]
    cs = [c for c in cs if 2 <= len(c.g) <= 5]
    res = vp.run_cases(exe, [c.line() + " 0" for c in cs], ck.work, "bases")
    out = []
    for c in cs:
        m = res.get(c.id, {})
        if "meshes" in m and all(m["meshes"][0]["nodes"]) is not None and len(m["meshes"][0]["cells"]) <= 5:
            out.append((c, m["meshes"][0]))
    # one of each size and kind first
    out.sort(key=lambda x: (-len(x[1]["cells"]) if len(x[1]["cells"]) < 5 else -1, x[0].id))
    return out[:want]


def model(ck, bs, name, deletes, collapses, emit, timeout):
    recs = []
    for c, m in bs:
        h = hexed(m)
        h["nodes"] = [[i, 0] for i in range(len(h["nodes"]))]      # names are enough
        h["sharedNodes"], h["sharedFaces"], h["neighbors"] = [list(range(0, len(h["nodes"]), 2))], [list(range(len(h["faces"]) - 1, -1, -3))], [1]
        recs.append(h)
    path = os.path.join(ck.work, name + ".ndjson")
    vp.write_ndjson(path, recs)
    cfg = ("INIT Init\nNEXT Next\nCONSTANTS MaxDeletes = %d\nMaxCollapses = %d\nEmitHistories = %s\n" % (deletes, collapses, "TRUE" if emit else "FALSE")
           + "".join("INVARIANT %s\n" % i for i in (["Emit"] if emit else ["Valid", "Composes", "Shapes", "OneCellEach"])))
    t = vp.tlc("MeshEditModel", cfg, ck.work, name, env={"BASES": path}, timeout=timeout)
    if not t.ok:
        raise CheckError("MeshEditModel fails:\n" + t.log[-3000:])
    ck.add_tlc(t)
    ck.cov["parts"][name] = {"states": t.distinct, "transitions": t.generated, "meshes": len(bs)}
    return sorted((json.loads(json.loads('"' + m + '"')) for m in re.findall(r'"HIST (.*)"', t.log)), key=json.dumps)


class Given:
    """A mesh that is given and not made by a tessellator."""
    def __init__(self, cid, dim, nodes, faces, cells):
        import c_adt
        self.id, self.dim = cid, dim
        self.toks = c_adt.mesh_toks(dim, nodes, faces, cells).split(" ", 1)[1]
        self.mesh = {"nodes": [x for p in nodes for x in p], "faces": faces, "cells": cells}

    def line(self):
        return "%s mesh %d %s" % (self.id, self.dim, self.toks)

    def desc(self):
        return {"dimension": self.dim, "mesh": self.mesh}


def shuffled(r, nodes, faces, cells):
    """The same mesh with other numbers, faces begun elsewhere and cells listed otherwise."""
    pn, pf, pc = [r.sample(range(len(x)), len(x)) for x in (nodes, faces, cells)]
    rn, rf = {o: i for i, o in enumerate(pn)}, {o: i for i, o in enumerate(pf)}
    turned = {}
    def face(f):
        k = r.randrange(len(faces[f]))
        return [rn[n] for n in faces[f][k:] + faces[f][:k]]
    nf = []
    for f in pf:
        nf.append(face(f) if len(faces[f]) > 2 else [rn[n] for n in faces[f]])
    return ([nodes[o] for o in pn], nf, [[~rf[~x] if x < 0 else rf[x] for x in cells[o]] for o in pc])


def solids(r):
    """A 3D mesh: bricks, slices of prisms on a flat mesh, or tetrahedra, numbered at random."""
    import c_adt
    kind = r.choice(["bricks", "prisms", "prisms", "tets", "tets"])
    if kind == "bricks":
        return c_adt.bricks(r, *r.choice([(2, 1, 1), (2, 2, 1), (2, 2, 2), (3, 1, 2), (3, 2, 2)]))
    if kind == "prisms":
        nodes, faces, cells = c_adt.rings(r)
        nz, nn = r.choice([1, 2, 3]), len(nodes)
        N = [[p[0], p[1], z] for z in range(nz + 1) for p in nodes]
        F, wall = [], {}
        for z in range(nz):
            for f, (a, b) in enumerate(faces):
                wall[f, z] = len(F)
                F.append([a + nn * z, b + nn * z, b + nn * (z + 1), a + nn * (z + 1)])
        lid = {}
        for c in range(len(cells)):
            loop = [faces[~k][1] if k < 0 else faces[k][0] for k in cells[c]]
            for z in range(nz + 1):
                lid[c, z] = len(F)
                F.append([n + nn * z for n in loop])          # seen from above
        C = [[~lid[c, z], lid[c, z + 1]] + [~wall[~k, z] if k < 0 else wall[k, z] for k in cells[c]] for c in range(len(cells)) for z in range(nz)]
        return shuffled(r, N, F, C)
    # every tetrahedron stands on a face of an earlier one
    nodes, tets = [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]], [(0, 1, 2, 3)]
    free = [(0, 2, 1), (0, 1, 3), (1, 2, 3), (2, 0, 3)]
    cells, faces, num = [], [], {}
    def use(t):
        key = frozenset(t)
        if key not in num:
            num[key] = len(faces)
            k = r.randrange(3)
            faces.append(list(t[k:] + t[:k]))
            return num[key]
        return ~num[key]
    cells.append([use(t) for t in free])
    for _ in range(r.choice([1, 2, 3, 5, 8])):
        t = free.pop(r.randrange(len(free)))
        n = len(nodes)
        nodes.append([r.randrange(-9, 10) for _ in range(3)])
        a, b, c = t
        mine = [(a, c, b), (a, b, n), (b, c, n), (c, a, n)]
        cells.append([use(x) for x in mine])
        free += mine[1:]
    return shuffled(r, nodes, faces, cells)


def c10():
    ck = Check("C10", "model_checking")
    r = vp.rng("C10")
    exe = driver()
    bs = bases(ck, r, 12)
    model(ck, bs[:6], "model", 2, 0, False, 300)
    hs = model(ck, bs[:4], "histories", 2, 0, True, 300)
    if len(hs) > scale(500):
        one = [h for h in hs if len(h["hist"]) == 1]
        two = [h for h in hs if len(h["hist"]) == 2]
        hs = r.sample(one, min(len(one), scale(200))) + r.sample(two, min(len(two), scale(300)))
    lines, info = [], {}
    def add(cid, c, m0, steps):
        n = len(m0["cells"])
        toks, ds = [share_tokens(r, m0, r.randrange(4), getattr(c, "dim", 2))], []
        for s in steps:
            toks.append(step_tokens(s, n))
            ds.append(s["cells"])
            n -= len(set(s["cells"]))
        l = "%s %s %d %s" % (cid, c.line().split(" ", 1)[1], len(toks), " ".join(toks))
        lines.append(l)
        info[cid] = (c, l, ds)
    for k, h in enumerate(hs):
        c, m = bs[h["base"] - 1]
        add("h%d" % k, c, m, h["hist"])
    # larger meshes, longer histories, any order and repetition in the lists
    cs = random_cases(r, [("unb", scale(40)), ("convex", scale(90)), ("nonconvex", scale(50)), ("holed", scale(40))], "e", sizes=(4, 7, 12, 20, 30))
    first = vp.run_cases(exe, [c.line() + " 0" for c in cs], ck.work, "first")
    given = []
    for k in range(scale(160)):
        nodes, faces, cells = solids(r) if k % 4 else shuffled(r, *__import__("c_adt").rings(r))
        if len(cells) > 1:
            given.append(Given("s%d" % k, 3 if k % 4 else 2, nodes, faces, cells))
    for c in cs + given:
        if c not in given and "meshes" not in first.get(c.id, {}):
            continue
        m = c.mesh if c in given else first[c.id]["meshes"][0]
        n, steps = len(m["cells"]), []
        for _ in range(r.choice([1, 1, 2, 3])):
            if n < 2:
                break
            k = r.choice([1, 1, 2, n // 3, n // 2, n - 1])
            D = r.sample(range(n), max(1, min(k, n - 1)))
            how = r.choice(["mask", "list"])
            if how == "list" and r.random() < 0.3:
                D = D + [r.choice(D)]
            steps.append({"how": how, "cells": D})
            n -= len(set(D))
        if not steps:
            steps = [{"how": "mask", "cells": []}]
        add(c.id, c, m, steps)
    res = vp.run_cases(exe, lines, ck.work, "edit")
    tl, ids = [], []
    for cid, (c, l, ds) in info.items():
        rec = res.get(cid, {})
        if "crash" in rec:
            ck.violation("deleting cells %s ends abnormally (%s) on %s" % (ds, rec["crash"], json.dumps(c.desc())[:400]), {"line": l})
            continue
        if "meshes" not in rec:
            continue
        tl.append({"meshes": [hexed(m, getattr(c, "dim", 2)) for m in rec["meshes"][1:]], "steps": ds})
        ids.append((c, l, ds))
    inv = ["InvCells", "InvFaceCells", "InvSharing", "InvBoundary", "InvHull"]
    t, bad = vp.check_cases("DeleteTrace", tl, inv, ck.work, "delete")
    ck.add_tlc(t)
    ck.cov["evaluations"] += len(tl) * len(inv)
    ck.cov["traces_validated_against_impl"] += len(tl)
    ck.cov["parts"]["histories_replayed"] = {"generated_by_TLC": len(hs), "random": len(tl) - len(hs), "in_3D": sum(1 for x in ids if getattr(x[0], "dim", 2) == 3)}
    for k in range(0, len(tl), max(1, len(tl) // 2)):
        ck.sample({"mesh": ids[k][0].desc(), "deleted": ids[k][2]})
    for k, i in sorted(set(bad)):
        c, l, ds = ids[k]
        ck.violation("%s fails after deleting %s from the mesh of %s" % (i, ds, json.dumps(c.desc())[:500]), {"invariant": i, "line": l, "trace": tl[k]})
    return ck.finish()


# ---------------------------------------------------------------- C11

FIX = 1 << 16


def lengths(m, s):
    n = m["nodes"]
    return [int(round(math.hypot(n[2 * a] - n[2 * b], n[2 * a + 1] - n[2 * b + 1]) / s * FIX)) for a, b in m["faces"]]


def bends(m):
    """Border nodes where the border is not exactly straight."""
    at = {}
    for f, fc in enumerate(m["faceCells"]):
        if len(fc) == 1:
            for n in m["faces"][f]:
                at.setdefault(n, []).append(f)
    out, x = [], m["nodes"]
    for n, fs in at.items():
        if len(fs) != 2:
            out.append(n)
            continue
        v = []
        for f in fs:
            k = [j for j in m["faces"][f] if j != n][0]
            v.append((x[2 * k] - x[2 * n], x[2 * k + 1] - x[2 * n + 1]))
        # only borders along an axis are judged straight here; the code allows round-off
        if not ((v[0][0] == 0 and v[1][0] == 0 and v[0][1] * v[1][1] < 0) or (v[0][1] == 0 and v[1][1] == 0 and v[0][0] * v[1][0] < 0)):
            out.append(n)
    return sorted(out)


def clean_trace(c, b, a, p, q, parallel=False):
    ids = {}
    def conv(m):
        n = m["nodes"]
        h = hexed(m)
        h["bits"] = [ids.setdefault(x, len(ids)) for x in h["nodes"]]
        h["nodes"] = h["bits"]
        return h
    B, A = conv(b), conv(a)
    corners = []
    if c.d is not None:
        for P in c.d.outer + sum(c.d.holes, []):
            corners += exact_nodes(b, *c.pl.put(P))
    return {"before": B, "after": A, "len": lengths(b, c.pl.s), "p": p, "q": q, "corners": corners, "bends": bends(b), "parallel": parallel}


CLEAN = ["InvTopology", "InvBoundary", "InvOneCell", "InvNodes", "InvCorners", "InvCollapsed", "InvShapes", "InvOnlyShort", "InvUntouched", "InvCleaned", "InvSharing"]


def c11():
    ck = Check("C11", "model_checking")
    r = vp.rng("C11")
    exe = driver()
    model(ck, bases(ck, r, 12)[:4], "model", 1 if THOROUGH else 0, 2 if THOROUGH else 1, False, 800)
    cs = random_cases(r, [("unb", scale(60)), ("convex", scale(260)), ("nonconvex", scale(90)), ("holed", scale(60))], "e", sizes=(2, 4, 7, 12, 20, 30))
    lines, info = [], {}
    first = vp.run_cases(exe, [c.line() + " 0" for c in cs], ck.work, "first")
    for c in cs:
        if "meshes" not in first.get(c.id, {}):
            continue
        q = 40
        ps = [r.choice([1, 2, 4, 6, 8, 10, 14, 20, 30])]
        if r.random() < 0.3:
            ps.append(ps[0])
        toks = [share_tokens(r, first[c.id]["meshes"][0], r.randrange(3))] + ["clean %r" % (p / float(q)) for p in ps]
        l = "%s %d %s" % (c.line(), len(toks), " ".join(toks))
        lines.append(l)
        info[c.id] = (c, l, ps, q)
    res = vp.run_cases(exe, lines, ck.work, "edit")
    tl, ids, tt, tids = [], [], [], []
    for cid, (c, l, ps, q) in info.items():
        rec = res.get(cid, {})
        if "crash" in rec:
            ck.violation("cleaning edges ends abnormally (%s) on %s" % (rec["crash"], json.dumps(c.desc())[:400]), {"line": l})
            continue
        if "meshes" not in rec:
            continue
        ms = rec["meshes"][1:]
        for i, p in enumerate(ps):
            if any(isinstance(x, str) for x in ms[i]["nodes"] + ms[i + 1]["nodes"]):
                continue
            tl.append(clean_trace(c, ms[i], ms[i + 1], p, q))
            ids.append((c, l, p))
        if c.d is not None:
            req = request(c.g, c.d, [])
            req["cornerNodes"] = [exact_nodes(ms[-1], *c.pl.put(p)) for p in c.d.outer + sum(c.d.holes, [])]
            tt.append({"req": req, "mesh": mesh_of(ms[-1], c.pl, req["S"])})
            tids.append((c, l, ps))
    t, bad = vp.check_cases("CleanTrace", tl, CLEAN, ck.work, "clean")
    ck.add_tlc(t)
    changed = sum(1 for x in tl if x["before"]["bits"] != x["after"]["bits"])
    ck.cov["evaluations"] += len(tl) * len(CLEAN)
    ck.cov["traces_validated_against_impl"] += len(tl)
    ck.cov["parts"]["cleanings"] = {"recorded": len(tl), "changed": changed, "nodes_removed": sum(len(x["before"]["bits"]) - len(x["after"]["bits"]) for x in tl)}
    for k in range(0, len(tl), max(1, len(tl) // 2)):
        ck.sample({"mesh": ids[k][0].desc(), "tolerance": ids[k][2] / 40.0})
    for k, i in sorted(set(bad)):
        c, l, p = ids[k]
        ck.violation("%s fails after cleaning with tolerance %g the mesh of %s" % (i, p / 40.0, json.dumps(c.desc())[:500]), {"invariant": i, "line": l, "trace": tl[k]})
    distributed(ck, vp.rng("C11", "d"))
    # the cleaned mesh still ends where the domain ends
    inv = ["InvIndices", "InvFollows", "InvCorners", "InvEuler"]
    t, bad = vp.check_cases("TessTrace", tt, inv, ck.work, "outline")
    ck.add_tlc(t)
    ck.cov["evaluations"] += len(tt) * len(inv)
    for k, i in sorted(set(bad)):
        c, l, ps = tids[k]
        ck.violation("%s fails after cleaning with tolerance %s the mesh of %s" % (i, ps, json.dumps(c.desc())[:500]), {"invariant": i, "line": l, "trace": tt[k]})
    return ck.finish()


AGREE = ["InvNeighbors", "InvMutual", "InvSharedValid", "InvSameNodes", "InvSameFaces", "InvAllNodes", "InvAllFaces", "InvVerdict"]


def distributed(ck, r):
    """Cleaning a distributed mesh: every process's part on its own, then what they share."""
    import c_dist
    exe = c_dist.driver()
    cases = c_dist.make_cases(r, scale(60), c_dist.NPS, "dist", c_dist.KINDS, "a") + c_dist.make_cases(r, scale(40), c_dist.NPS, "repl", c_dist.KINDS, "r", general=False)
    cases += c_dist.make_cases(r, scale(30), c_dist.NPS, "repl", ["convex"], "g", general=False, sizes=(20, 30))
    # mirrored generators: the border between the processes is straight
    for k in range(scale(40)):
        n = r.choice([4, 7, 10, 14])
        left = r.sample([(x, y) for x in range(4, 8) for y in range(1, 16)], n) if k % 2 else r.sample([(x, y) for x in range(1, 8) for y in range(1, 16)], n)
        g = left + [(16 - x, y) for x, y in left]
        np = [2, 2, 3, 4][k % 4]
        o = [0 if np < 4 or y < 8 else 2 for x, y in left] + [1 if np < 3 or y < 8 else np - 1 for x, y in left]
        if k % 3 == 0:
            g = [(y, x) for x, y in g]
        if not all(q in o for q in range(np)):
            continue
        pl = r.choice([Placement(), Placement(0.125, 1.0, -2.0), Placement(1024.0), Placement(1.0, 0.0, 0.0, 0.7)])
        cases.append(c_dist.DCase("m%d" % k, "repl", np, BOX16, g, o, pl, "plc", 1, r.randrange(4), k))
    # strips that belong to two processes in turn: edges that join shared nodes without being shared
    for k in range(scale(16)):
        ys = sorted(r.sample(range(1, 16), r.choice([3, 5, 7, 9])))
        w = r.choice([2, 4])
        xs = list(range(w // 2, 16, w))
        g = [(x, y) for x in xs for y in ys]
        np = r.choice([2, 2, 3])
        o = [((x // w) if np == 2 else (x // w) % 3 if x % 3 else r.randrange(3)) % np for x, y in g]
        if not all(q in o for q in range(np)):
            continue
        if k % 2:
            g = [(y, x) for x, y in g]
        cases.append(c_dist.DCase("t%d" % k, "repl", np, BOX16, g, o, Placement(), "plc", 1, r.randrange(4), k))
    for c in cases:
        c.tol = r.choice([2, 4, 8, 10, 14, 20, 30])
    tl, ids, sl, sids, ml = [], [], [], [], []
    for np in sorted({c.np for c in cases}):
        mine = [c for c in cases if c.np == np]
        res = vp.run_mpi_cases(exe, [c.line() + " %r" % (c.tol / 40.0) for c in mine], np, ck.work, "clean%d" % np)
        for c in mine:
            x = res.get(c.id, {"crash": "no record"})
            rep = dict(c.desc(), tolerance=c.tol / 40.0)
            if isinstance(x, dict):
                if not x.get("skipped"):
                    ck.violation("cleaning does not return on every process (%s) on %s" % (x["crash"], json.dumps(rep)[:600]), {"case": rep, "log": x.get("log", "")})
                continue
            if any(y["verdict"] != "ok" for y in x) or any(isinstance(v, str) for y in x for v in y["nodes"]):
                continue        # C07's business
            for y in x:
                tl.append(clean_trace(c, y, y["cleaned"], c.tol, 40, True))
                ids.append(rep)
            bits = {}
            parts = [c_dist.part_of(y["cleaned"], c.pl, bits) for y in x]
            sl.append({"n": np, "owner": c.o, "parts": parts, "exact": True})
            sids.append(rep)
            ml.append({"logs": [y["cleaned"]["log"] for y in x], "results": [0], "left": sum(1 for y in x if y["cleaned"]["left"]), "unfinished": sum(y["cleaned"]["unfinished"] for y in x)})
    t, bad = vp.check_cases("CleanTrace", tl, CLEAN, ck.work, "dclean")
    ck.add_tlc(t)
    for k, i in sorted(set(bad)):
        ck.violation("%s fails on a process that cleaned its part of %s" % (i, json.dumps(ids[k])[:600]), {"invariant": i, "case": ids[k], "trace": tl[k]})
    t, bad = vp.check_cases("DistTrace", sl, AGREE, ck.work, "dagree")
    ck.add_tlc(t)
    for k, i in sorted(set(bad)):
        ck.violation("%s fails after cleaning %s" % (i, json.dumps(sids[k])[:600]), {"invariant": i, "case": sids[k], "trace": sl[k]})
    t, bad = vp.check_cases("MpiTrace", ml, c_dist.MPI, ck.work, "dmpi")
    ck.add_tlc(t)
    for k, i in sorted(set(bad)):
        ck.violation("%s fails in the exchange of %s" % (i, json.dumps(sids[k])[:600]), {"invariant": i, "case": sids[k], "trace": ml[k]})
    ck.cov["evaluations"] += len(tl) * len(CLEAN) + len(sl) * len(AGREE) + 2 * len(ml)
    ck.cov["traces_validated_against_impl"] += len(sl)
    ck.cov["parts"]["distributed"] = {"requests": len(sl), "parts": len(tl), "parts_changed": sum(1 for x in tl if x["before"]["bits"] != x["after"]["bits"]),
                                      "shared_nodes_removed": sum(len(set(b) - set(x["after"]["bits"])) for x in tl for b in [[x["before"]["bits"][n] for l in x["before"]["sharedNodes"] for n in l]])}
