"""C21: mesh and outline objects, their derived views, and the helpers that make outlines."""
import json, re
import vp, vpbuild, geom
from vp import Check, CheckError
from c_tess import scale, random_cases

MESH = ["nodes", "cells", "faces", "bnodes", "bfaces", "faceCells", "hullf", "hullh", "neighbors", "sharedNodes", "sharedFaces"]


def driver():
    return vpbuild.build("adt", ["adt.cc"])


def il(xs):
    return "%d %s" % (len(xs), " ".join(map(str, xs))) if xs else "0"


def ll(xss, f=il):
    return "%d %s" % (len(xss), " ".join(f(x) for x in xss)) if xss else "0"


def histories(ck, name, mode, slots, values, maxlen, simulate=None):
    cfg = ('INIT Init\nNEXT Next\nCONSTANTS Mode = "%s"\nSlots = {%s}\nValues = {%s}\nMaxLen = %d\nINVARIANT ClearedIsNew\nINVARIANT Emit\n%s'
           % (mode, ", ".join(map(str, slots)), ", ".join(map(str, values)), maxlen, "" if simulate else "PROPERTY OneAtATime\n"))
    args = ["-simulate", "num=%d" % simulate, "-depth", str(maxlen + 1), "-seed", str(vp.SEED)] if simulate else []
    t = vp.tlc("ObjectsModel", cfg, ck.work, name, timeout=300, workers=1 if simulate else "auto", args=args)
    if t.violated or (not simulate and not t.ok) or (simulate and t.rc != 0):
        raise CheckError("ObjectsModel fails:\n" + t.log[-3000:])
    ck.add_tlc(t)
    hs = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'"HIST (.*)"', t.log)]
    ck.cov["parts"][name] = {"states": t.distinct, "histories": len(hs)}
    return sorted({json.dumps(h): h for h in hs}.values(), key=json.dumps)


def facets(r, dim, npts, n=None):
    k = 2 if dim == 2 else r.choice([3, 3, 4])
    return [[r.randrange(npts) for _ in range(k if dim == 2 else r.choice([3, 4]))] for _ in range(r.randrange(1, 5) if n is None else n)]


def part_value(r, part, dim):
    """(concrete value as the trace shows it, input tokens)"""
    if part in ("nodes", "points"):
        pts = [[r.randrange(-9, 10) for _ in range(dim)] for _ in range(r.choice([6, 7, 9]))]
        flat = [x for p in pts for x in p]
        return pts, il(flat)
    if part in ("bnodes", "bfaces", "neighbors"):
        v = [r.randrange(9) for _ in range(r.randrange(1, 5))]
        return v, il(v)
    if part in ("cells", "faceCells"):
        v = [[r.randrange(-5, 6) for _ in range(r.randrange(0, 4))] for _ in range(r.randrange(1, 4))]
        return v, ll(v)
    if part in ("faces", "sharedNodes", "sharedFaces"):
        v = [[r.randrange(9) for _ in range(r.randrange(0, 4))] for _ in range(r.randrange(1, 4))]
        return v, ll(v)
    if part in ("hullf", "facets"):
        v = facets(r, dim, 6)
        return v, ll(v)
    v = [facets(r, dim, 6) if r.random() < .9 else [] for _ in range(r.choice([1, 1, 2]))]
    return v, ll(v, ll)


def realise(r, hist, dim):
    """Tokens and the operations with concrete values."""
    toks, ops = [], []
    npts = {0: 0, 1: 0, 2: 0}
    facs = {0: 0, 1: 0, 2: 0}
    def fill(o):
        v, t = part_value(r, o["part"], dim)
        ops.append(dict(op=o["op"], slot=o["slot"], part=o["part"], v=v))
        toks.append("%s %d %s %s" % (o["op"], o["slot"], o["part"], t))
        if o["part"] == "points":
            npts[o["slot"]] = len(v)
        elif o["op"] == "Of":
            facs[o["slot"]] = 1
    for o in hist:
        k, s = o["op"], o["slot"]
        if k in ("Mf", "Of"):
            fill(o)
            continue
        q = {x: o[x] for x in ("op", "slot", "from") if x in o}
        if k in ("Mn", "Mc", "On", "Oc"):
            toks.append("%s %d" % (k, s))
        elif k in ("Oa", "Ok"):
            toks.append("%s %d %d" % (k, s, o["from"]))
        elif k == "Or":
            if facs[o["from"]] and npts[o["from"]] < 6:
                fill({"op": "Of", "slot": o["from"], "part": "points"})
            toks.append("Or %d %d" % (s, o["from"]))
        elif k == "Ob":
            lo = [r.randrange(-5, 5) for _ in range(dim)]
            q["lo"], q["hi"] = lo, [x + r.randrange(1, 6) for x in lo]
            toks.append("Ob %d %s %s" % (s, il(q["lo"]), il(q["hi"])))
        if k in ("On", "Oc"):
            npts[s] = facs[s] = 0
        elif k in ("Oa", "Ok"):
            npts[s], facs[s] = npts[o["from"]], facs[o["from"]]
        elif k == "Or":
            npts[s], facs[s] = 0, facs[o["from"]]     # unknown until made
        elif k == "Ob":
            npts[s], facs[s] = 0, 1
        ops.append(q)
    return toks, ops


def tup(p):
    try:
        return [int(x) for x in p.split(",")]
    except ValueError:
        return [p]


def hist_trace(ops, rec):
    out = []
    for o, e in zip(ops, rec["ops"]):
        e = dict(e)
        for m in e["meshes"]:
            m["nodes"] = [tup(p) for p in m["nodes"]] + ([[m["odd"]]] if m["odd"] else [])
        for m in e["outlines"]:
            m["points"] = [tup(p) for p in m["points"]] + ([[m["odd"]]] if m["odd"] else [])
        o = dict(o, meshes=e["meshes"], outlines=e["outlines"])
        if o["op"] in ("Ob", "Or"):
            w = e["outlines"][o["slot"]]
            o["made"] = {k: w[k] for k in ("facets", "holes", "points")}
        out.append(o)
    return out


def random_hist(r, kind):
    """Longer histories over both kinds of objects."""
    h = []
    for _ in range(r.randrange(8, 25)):
        s = r.randrange(3)
        t = r.choice([x for x in range(3) if x != s])
        if kind == "mesh":
            k = r.choice(["Mf"] * 6 + ["Mn", "Mc", "Mc"])
        else:
            k = r.choice(["Of"] * 5 + ["On", "Oc", "Oc", "Oa", "Ok", "Or", "Or", "Ob"])
        o = {"op": k, "slot": s, "from": t}
        if k == "Mf":
            o["part"] = r.choice(MESH)
        if k == "Of":
            o["part"] = r.choice(["facets", "holes", "points"])
        if k == "Or" and r.random() < .3:
            o["from"] = s
        h.append(o)
    return h


def mesh_toks(dim, nodes, faces, cells):
    fc = [[] for _ in faces]
    for i, c in enumerate(cells):
        for x in c:
            fc[~x if x < 0 else x].append(~i if x < 0 else i)
    flat = [x for p in nodes for x in p]
    return "mesh %s %s %s %s 0 0 0 0 0" % (il(flat), ll(faces), ll(cells), ll(fc))


def bricks(r, nx, ny, nz):
    """A block of bricks, some of them joined, faces either way round, numbers shuffled."""
    nn = [(x, y, z) for x in range(nx + 1) for y in range(ny + 1) for z in range(nz + 1)]
    r.shuffle(nn)
    num = {p: i for i, p in enumerate(nn)}
    cells = [(x, y, z) for x in range(nx) for y in range(ny) for z in range(nz)]
    owner = {c: i for i, c in enumerate(cells)}
    if len(cells) > 2 and r.random() < .5:
        for _ in range(r.randrange(1, max(2, len(cells) // 3))):
            c = r.choice(cells)
            k = r.randrange(3)
            d = tuple(c[j] + (j == k) for j in range(3))
            if d in owner:
                a, b = owner[c], owner[d]
                owner = {q: (a if o == b else o) for q, o in owner.items()}
    ids = sorted(set(owner.values()))
    r.shuffle(ids)
    ren = {o: i for i, o in enumerate(ids)}
    faces, out = [], [[] for _ in ids]
    for k in range(3):
        u, v = (k + 1) % 3, (k + 2) % 3
        for c in [(x, y, z) for x in range(nx + (k == 0)) for y in range(ny + (k == 1)) for z in range(nz + (k == 2))]:
            lo = tuple(c[j] - (j == k) for j in range(3))
            a, b = owner.get(lo), owner.get(c)     # a below, b above
            if a == b:
                continue
            q = [tuple(c[j] + (j == u) * s + (j == v) * t for j in range(3)) for s, t in ((0, 0), (1, 0), (1, 1), (0, 1))]
            f = [num[p] for p in q]                # counter-clockwise seen from above
            o = r.randrange(4)
            f = f[o:] + f[:o]
            up = b is None or (a is not None and r.random() < .5)
            if not up:
                f.reverse()
            n = len(faces)
            faces.append(f)
            if a is not None:
                out[ren[a]].append(n if up else ~n)
            if b is not None:
                out[ren[b]].append(~n if up else n)
    for c in out:
        r.shuffle(c)
    return [list(p) for p in nn], faces, out


def rings(r):
    """Some polygons around common sides, in 2D: a row of cells with any number of sides."""
    n = r.randrange(1, 6)
    nodes, faces, cells = [], [], []
    def node(p):
        nodes.append(list(p))
        return len(nodes) - 1
    def face(a, b):
        faces.append([a, b])
        return len(faces) - 1
    bot, top = node((0, 0)), node((0, 5))
    side = face(top, bot)             # the left side of the first cell, downwards
    flip = False
    x = 0
    for i in range(n):
        lows = [node((x + k + 1, -(k % 2))) for k in range(r.randrange(1, 4))]
        highs = [node((x + k + 1, 5 + (k % 2))) for k in range(r.randrange(1, 4))]
        x += 4
        lows[-1] = lows[-1] if r.random() < .5 else node((x, 0))
        highs[-1] = highs[-1] if r.random() < .5 else node((x, 5))
        c = [~side if flip else side]
        prev = bot
        for p in lows:
            c.append(face(prev, p)) if r.random() < .5 else c.append(~face(p, prev))
            prev = p
        right = r.random() < .5       # upwards, or downwards
        s2 = face(lows[-1], highs[-1]) if right else face(highs[-1], lows[-1])
        c.append(s2 if right else ~s2)
        prev = highs[-1]
        for p in highs[-2::-1] + [top]:
            c.append(face(prev, p)) if r.random() < .5 else c.append(~face(p, prev))
            prev = p
        o = r.randrange(len(c))
        cells.append(c[o:] + c[:o])
        bot, top, side, flip = lows[-1], highs[-1], s2, right
    return nodes, faces, cells


def tangle(r, dim):
    """Any incidence at all: cells of any faces of any nodes."""
    nn, nf, nc = r.randrange(1, 9), r.randrange(1, 9), r.randrange(0, 6)
    nodes = [[r.randrange(9) for _ in range(dim)] for _ in range(nn)]
    faces = [[r.randrange(nn) for _ in range(2 if dim == 2 else r.randrange(3, 6))] for _ in range(nf)]
    uses = [r.choice([1, 1, 2]) for _ in range(nf)]
    cells = [[] for _ in range(nc)]
    for f, u in enumerate(uses):
        for i in r.sample(range(nc), min(u, nc)):
            cells[i].append(f if r.random() < .5 else ~f)
    # a face with no cell has no place in a mesh
    keep = sorted({~x if x < 0 else x for c in cells for x in c})
    new = {f: i for i, f in enumerate(keep)}
    cells = [[(~new[~x] if x < 0 else new[x]) for x in c] for c in cells]
    return nodes, [faces[f] for f in keep], cells


def c21():
    ck = Check("C21", "model_checking")
    r = vp.rng("C21")
    exe = driver()
    hs = [("mesh", h) for h in histories(ck, "mesh", "mesh", [0, 1], [1], 3)]
    hs += [("mesh", h) for h in histories(ck, "meshes", "mesh", [0, 1, 2], [1], 9, simulate=scale(150))]
    ho = [("outline", h) for h in histories(ck, "outline", "outline", [0, 1], [1], 4 if vp.THOROUGH else 3)]
    ho += [("outline", h) for h in histories(ck, "outlines", "outline", [0, 1, 2], [1], 9, simulate=scale(150))]
    for k in range(scale(60)):
        hs.append(("mesh", random_hist(r, "mesh")))
        ho.append(("outline", random_hist(r, "outline")))
    r.shuffle(hs); r.shuffle(ho)
    lines, info = [], {}
    def add(what, dim, rest, extra):
        cid = "%s%d" % (what, len(lines))
        lines.append("%s %s %d %s" % (cid, what, dim, rest))
        info[cid] = (what, dim, extra, lines[-1])
    for mode, h in hs[:scale(900)] + ho[:scale(900)]:
        dim = r.choice([2, 2, 3])
        toks, ops = realise(r, h, dim)
        add("hist", dim, "%d %s" % (len(toks), " ".join(toks)), ops)
    for k in range(scale(40)):
        nx, ny, nz = r.choice([(1, 1, 1), (2, 1, 1), (1, 2, 1), (2, 2, 1), (2, 2, 2), (3, 1, 2), (1, 1, 3)])
        add("views", 3, "1 " + mesh_toks(3, *bricks(r, nx, ny, nz)), True)
        add("views", 2, "1 " + mesh_toks(2, *rings(r)), True)
        for dim in (2, 3):
            add("views", dim, "0 " + mesh_toks(dim, *tangle(r, dim)), False)
    for c in random_cases(r, [("convex", scale(12)), ("nonconvex", scale(8)), ("holed", scale(6))], "t", sizes=(1, 2, 4, 9, 16)):
        add("tess", 2, "%s %s" % (geom.rl(c.pl.flat(c.g)), plc(c)), True)
    for k in range(scale(120)):
        n = r.choice([0, 1, 2, 3, 5, 8, 13, 21])
        v = [r.randrange(100) for _ in range(n)]
        pick = r.choice(["some", "some", "none", "all", "ends", "head", "tail"])
        g = {"some": sorted(r.sample(range(n), r.randrange(n + 1))), "none": [], "all": list(range(n)), "ends": sorted({0, n - 1} if n else []),
             "head": list(range(n // 2)), "tail": list(range(n - n // 2, n))}[pick]
        add("remove", 2, "%d %s %s" % (k % 3, il(v), il(g)), {"v": v, "gone": g})
        dim = r.choice([2, 3])
        pts = [x * 0.37 for x in range(dim * r.randrange(1, 12))]
        l = [r.randrange(len(pts) // dim) for _ in range(r.randrange(0, 9))]
        add("extract", dim, "%s %s" % (geom.rl(pts), il(l)), {"list": l})
        lo = [r.randrange(-20, 20) for _ in range(dim)]
        hi = [x + r.randrange(1, 30) for x in lo]
        add("box", dim, "%s %s" % (il(lo), il(hi)), {"lo": lo, "hi": hi})
    for k in range(scale(10)):
        for n in (3, 4, 5, 8, 12):
            s = r.choice([.001, 1.0, 1.0, 37.5, 1e4])
            c = [s * r.uniform(-3, 3) for _ in range(3)]
            add("circle", 2, "%s %r %d" % (geom.rl(c[:2]), s, n), {"n": n})
            half = r.choice([250, 500, 1000, 3000])
            add("cylinder", 3, "%s %r %r %d" % (geom.rl(c), s, s * half / 500.0, n), {"n": n, "half": half})
            if n >= 3:
                add("sphere", 3, "%s %r %d" % (geom.rl(c), s, n), {})
    res = vp.run_cases(exe, lines, ck.work, "adt", per_case=2.0, base=60.0)
    tl, ids = [], []
    for cid, (what, dim, x, l) in info.items():
        rec = res.get(cid, {})
        if "crash" in rec:
            ck.violation("%s ends abnormally (%s): %s" % (what, rec["crash"], l[:400]), {"line": l})
            continue
        if "skipped" in rec or not rec:
            continue
        q = {"what": what, "dim": dim, "ops": [0]}
        if what == "hist":
            q["ops"] = hist_trace(x, rec)
        elif what in ("views", "tess"):
            q.update(what="views", outlined=x, **{k: rec[k] for k in ("mesh", "nodeCells", "cellNodes", "rimFaces", "rimNodes", "outlines", "after")})
        elif what in ("remove", "extract"):
            q.update(x, **{k: rec[k] for k in rec if k in ("result", "map", "points")})
        else:
            q.update(x, made=rec["made"])
        tl.append(q)
        ids.append(l)
    inv = ["InvRight", "InvMeshes", "InvOutlines", "InvNodeCells", "InvCellNodes", "InvRim", "InvCellOutlines", "InvUntouched", "InvRemoved", "InvExtract", "InvBox",
           "InvCircle", "InvRound"]
    t, bad = vp.check_cases("ObjectsTrace", tl, inv, ck.work, "trace", timeout=800)
    ck.add_tlc(t)
    ck.cov["evaluations"] += sum(len(x["ops"]) for x in tl)
    ck.cov["traces_validated_against_impl"] += len(tl)
    kinds = {}
    for x in tl:
        kinds[x["what"]] = kinds.get(x["what"], 0) + 1
    ck.cov["parts"]["recorded"] = kinds
    for k in (0, len(tl) // 2, len(tl) - 1):
        ck.sample({"case": ids[k][:300]})
    for k, i in sorted(set(bad)):
        ck.violation("%s fails: %s" % (i, ids[k][:500]), {"invariant": i, "line": ids[k][:20000], "trace": tl[k]})
    return ck.finish()


def plc(c):
    return "%s %s" % (geom.rl(c.pl.flat(c.d.outer + sum(c.d.holes, []))), geom.plc_toks(len(c.d.outer), c.d.holes))
