"""C18: hash keys, quantised positions and tolerant look-up."""
import json, re
import vp, vpbuild, geom
from vp import Check, CheckError
from c_tess import scale
from c_adt import mesh_toks, il

EPS = 2.0 ** -52
TOP, LOWEST, HIGHEST = {}, {}, {}     # of keys and of the integer grids, as the code has them


def ask_limits(exe, work):
    res = vp.run_cases(exe, ["l2 limits 2", "l3 limits 3"], work, "limits")
    for d in (2, 3):
        rec = res["l%d" % d]
        if not (0 < rec.get("top", 0) < 2 ** 31 and rec["lowest"] < rec["highest"] and rec["highest"] - rec["lowest"] < 2 ** 31):
            raise CheckError("unexpected limits %s" % rec)
        TOP[d], LOWEST[d], HIGHEST[d] = rec["top"], rec["lowest"], rec["highest"]


def driver():
    return vpbuild.build("quant", ["quant.cc"])


def model(ck, name, mode, dim, width=1, side=0, tol=0, maxlen=0, broken=False, simulate=None):
    cfg = ('INIT Init\nNEXT Next\nCONSTANTS Mode = "%s"\nDim = %d\nWidth = %d\nSide = %d\nTol = %d\nMaxLen = %d\nBroken = %s\n'
           % (mode, dim, width, side, tol, maxlen, str(broken).upper()))
    cfg += "".join("INVARIANT %s\n" % i for i in ("InvUnpack", "InvInjective", "InvApart", "InvCovered", "Emit"))
    args = ["-simulate", "num=%d" % simulate, "-depth", str(maxlen + 1), "-seed", str(vp.SEED)] if simulate else []
    t = vp.tlc("QuantizeModel", cfg, ck.work, name, timeout=300, workers=1 if simulate else "auto", args=args)
    if broken:
        if t.ok or not t.violated:
            raise CheckError("the broken packing was not refuted:\n" + t.log[-2000:])
    elif t.violated or (not simulate and not t.ok) or (simulate and t.rc != 0):
        raise CheckError("QuantizeModel fails:\n" + t.log[-3000:])
    ck.add_tlc(t)
    hs = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'"HIST (.*)"', t.log)]
    ck.cov["parts"][name] = {"states": t.distinct, "histories": len(hs)}
    return sorted({json.dumps(h): h for h in hs}.values(), key=json.dumps)


def place(r, n, half=True):
    """A place among n whole steps: <<m, f>> with f off the ends (and off the middle when half is not wanted)."""
    k = r.random()
    m = r.choice([0, 1, 2, 3, n - 2, n - 1]) if k < .35 else r.randrange(n) if k < .7 else 2 ** r.randrange(n.bit_length()) - r.choice([0, 1])
    m = max(0, min(n - 1, m))
    return [m, r.choice([1, 2, 3, 4, 5, 6, 7] if half else [1, 2, 3, 5, 6, 7])]


def near(r, at, n, half=True):
    """A place in the same bin or beside it on some of the axes."""
    out = []
    for m, f in at:
        k = r.random()
        if k < .6:
            out.append([m, r.choice([1, 3, 6, 7])])
        else:
            out.append([max(0, min(n - 1, m + r.choice([-1, 1]))), r.choice([1, 2, 6, 7])])
    return out


def pos(lo, dx, at):
    return [l + (m + f / 8.0) * d for l, d, (m, f) in zip(lo, dx, at)]


def resolution(lo, hi, dim, tol):
    return [max((h - l) / float(TOP[dim]), tol, EPS) for l, h in zip(lo, hi)]


def bounds(r, dim):
    size = r.choice([1e-3, 1.0, 1.0, 7.3, 1e5])
    cube = r.random() < .4
    ext = [size * (1.0 if cube else r.choice([.1, .5, 1.0, 1.0, 3.7, 40.0])) for _ in range(dim)]
    lo = [r.choice([0.0, -.5, -1.0, r.uniform(-4, 4)]) * max(e, 0) for e in ext]
    return lo, [l + e for l, e in zip(lo, ext)]


def hash_case(r, dim):
    kind = r.choice(["one", "one", "two", "two", "tol", "tol2", "tiny", "flat"])
    tol = 0.0
    ilo, ihi = bounds(r, dim)
    if kind == "tiny":
        ilo = [0.0] * dim
        ihi = [EPS * r.choice([64, 1000, 2 ** 16]) for _ in range(dim)]
    if kind == "flat" and dim == 2:
        k = r.randrange(2)
        ihi[k] = ilo[k]
    if kind in ("tol", "tol2"):
        tol = 2.0 ** -r.randrange(3, 12)
        ilo = [r.randrange(-8, 8) * 1.0 for _ in range(dim)]
        ihi = [l + tol * (r.randrange(3, 4000) + r.randrange(8) / 8.0) for l in ilo]
    if kind in ("two", "tol2"):
        w = r.choice([.5, 1.0, 6.0])
        olo = [l - w * (h - l) * r.choice([0, .5, 1]) for l, h in zip(ilo, ihi)]
        ohi = [h + w * (h - l) * r.choice([0.0, .25, 1]) for l, h in zip(ilo, ihi)]
    else:
        olo, ohi = list(ilo), list(ihi)
    di, do = resolution(ilo, ihi, dim, tol), resolution(olo, ohi, dim, tol)
    toks, qs, seen = [], [], []
    for _ in range(r.randrange(6, 22)):
        which = r.random() < .5 if kind in ("two", "tol2") else False
        lo, hi, dx = (olo, ohi, do) if which else (ilo, ihi, di)
        # whole steps inside the box on each axis
        ns = [min(TOP[dim], int((h - l) / d + 1e-6)) for l, h, d in zip(lo, hi, dx)]
        mine = [a for a, w in seen if w == which]
        at = []
        old = near(r, r.choice(mine), 1 << 40) if mine and r.random() < .5 else None
        p = []
        for k in range(dim):
            e = r.random()
            if ns[k] < 1 or e < .06:
                at.append([0, 0]); p.append(lo[k])
            elif e < .12 and tol == 0.0:
                at.append([ns[k], 0]); p.append(hi[k])
            else:
                a = old[k] if old else place(r, ns[k])
                a = [min(a[0], ns[k] - 1), a[1]]
                at.append(a); p.append(lo[k] + (a[0] + a[1] / 8.0) * dx[k])
        inner = all(a <= x <= b for a, x, b in zip(ilo, p, ihi))
        if which and inner or not which and not inner:
            continue
        if any(not (a <= x <= b) for a, x, b in zip(olo, p, ohi)):
            continue
        seen.append((at, which))
        toks.append("%s %d" % (geom.rl(p), inner))
        qs.append({"at": at, "inner": inner})
    if not qs:
        return None
    rest = "%s %s %s %s %r %s %s %d %s" % (geom.rl(ilo), geom.rl(ihi), geom.rl(olo), geom.rl(ohi), tol, geom.rl(di), geom.rl(do), len(qs), " ".join(toks))
    return rest, {"qs": qs}


def unique_case(r, dim):
    lo, hi = bounds(r, dim)
    tol = 0.0
    if r.random() < .5:
        tol = 2.0 ** -r.randrange(1, 8)
        lo = [float(r.randrange(-8, 8)) for _ in lo]
        hi = [l + tol * r.randrange(2, 9) for l in lo]
    dx = resolution(lo, hi, dim, tol)
    ns = [min(TOP[dim], int((h - l) / d + 1e-6)) for l, h, d in zip(lo, hi, dx)]
    ats = []
    for _ in range(r.randrange(1, 25)):
        base = near(r, r.choice(ats), 1 << 40) if ats and r.random() < .6 else [place(r, n) for n in ns]
        ats.append([[min(a[0], n - 1), a[1]] for a, n in zip(base, ns)])
    return "%s %s %r %s" % (geom.rl(lo), geom.rl(hi), tol, geom.rl([x for a in ats for x in pos(lo, dx, a)])), {"qs": [{"at": ats}]}


def grid_case(r, dim):
    lo, hi = bounds(r, dim)
    if r.random() < .6 or dim == 3:
        hi = [l + max(h - l for l, h in zip(lo, hi)) * (1.0 if dim == 2 else r.choice([1.0, 1.0, .5])) for l in lo]
    around = r.random() < .4
    rim = []
    if around:
        L = max(h - l for l, h in zip(lo, hi))
        rim = [[r.choice([l, h, r.uniform(l, h)]) for l, h in zip(lo, hi)] for _ in range(r.randrange(5))] + [lo, hi]
        r.shuffle(rim)
        lo, full = [l - 2.0 * L for l in lo], 5.0 * L
        hi = [l + full for l in lo]
    length = max(h - l for l, h in zip(lo, hi))
    dx = length / float(HIGHEST[dim] - LOWEST[dim])
    ns = [max(1, int((h - l) / dx + 1e-6)) for l, h in zip(lo, hi)]
    if around:
        ns = [int(n * .6) for n in ns]
    ats = []
    for _ in range(r.randrange(1, 12)):
        base = near(r, r.choice(ats), 1 << 40) if ats and r.random() < .4 else [place(r, n) for n in ns]
        ats.append([[min(a[0], n - 1), a[1]] for a, n in zip(base, ns)])
    toks = "%d %s %s %s %s" % (around, geom.rl(lo), geom.rl(hi), geom.rl([x for p in rim for x in p]) if around else "",
                               geom.rl([x for a in ats for x in pos(lo, [dx] * dim, a)]))
    return toks, {"qs": [{"at": a} for a in ats], "lowest": LOWEST[dim]}


def round_case(r, dim):
    kind = r.randrange(4)
    dx = r.choice([1.0, .5, 1e-3, 3e-7, 1e4])
    n = r.choice([4, 100, 2 ** 20, 2 ** 30])
    lo = [0.0] * dim if kind == 2 else [r.choice([0.0, -.5, 1.0, r.uniform(-4, 4)]) * n * dx for _ in range(dim)]
    ats = []
    for _ in range(r.randrange(1, 12)):
        base = near(r, r.choice(ats), n) if ats and r.random() < .4 else [place(r, n, False) for _ in range(dim)]
        ats.append([[m, 3 if f == 4 else f] for m, f in base])
    idx = r.choice([0, 1, 7, 2000000000])
    return "%d %d %s %r %s" % (kind, idx, geom.rl(lo), dx, geom.rl([x for a in ats for x in pos(lo, [dx] * dim, a)])), \
        {"qs": [{"at": a} for a in ats], "lowest": 0, "index": idx}


def random_lookups(r, dim):
    tol = r.choice([0, 1, 2, 5])
    side = r.choice([2, 6, 30, 400])
    h, seen = [], []
    for _ in range(r.randrange(8, 60)):
        p = [r.randrange(-side, side + 1) for _ in range(dim)]
        if seen and r.random() < .5:
            q = r.choice(seen)
            p = [x + r.choice([-tol - 1, -tol, 0, tol, tol + 1, 3 * tol + 2]) for x in q]
        if seen and dim == 3 and r.random() < .2:
            p = [r.choice(seen)[k] for k in range(dim)]      # each axis near a different one
        seen.append(p)
        h.append({"ask": r.random() < .45, "p": p})
    return tol, h


def centre_case(r, dim):
    n = r.randrange(3, 10)
    nodes = [[r.randrange(0, 200) for _ in range(dim)] for _ in range(n)]
    faces = [r.sample(range(n), 2 if dim == 2 else r.randrange(3, min(n, 7) + 1)) for _ in range(r.randrange(1, 7))]
    dx = r.choice([1.0, .5, .125])
    lo = [float(r.randrange(-50, 50)) * dx for _ in range(dim)]
    real = [[l + x * dx for l, x in zip(lo, p)] for p in nodes]
    return nodes, faces, dx, lo, real


def c18():
    ck = Check("C18", "model_checking")
    r = vp.rng("C18")
    exe = driver()
    ask_limits(exe, ck.work)
    for dim in (2, 3):
        for w in (1, 2, 3):
            if dim == 3 and w == 3 and not vp.THOROUGH:
                continue
            model(ck, "keys%d_%d" % (dim, w), "keys", dim, w)
    model(ck, "keys_broken", "keys", 2, 2, broken=True)
    hs = []
    for dim, side, tol, ln in [(2, 1, 0, 3), (2, 2, 1, 3), (3, 1, 0, 3)] + ([(2, 3, 1, 3), (3, 1, 1, 3), (3, 2, 1, 2)] if vp.THOROUGH else []):
        hs += [(dim, tol, h) for h in model(ck, "map%d_%d_%d" % (dim, side, tol), "map", dim, 1, side, tol, ln)]
    r.shuffle(hs)
    hs = hs[:scale(1500)]
    for dim, side, tol in [(2, 5, 1), (3, 3, 0), (3, 4, 1)]:
        ws = model(ck, "walk%d_%d" % (dim, tol), "map", dim, 1, side, tol, 12, simulate=scale(60))
        hs += [(dim, tol, h) for h in r.sample(ws, min(len(ws), scale(120)))]
    for k in range(scale(150)):
        dim = r.choice([2, 3])
        tol, h = random_lookups(r, dim)
        hs.append((dim, tol, h))
    lines, info = [], {}
    def add(what, dim, rest, extra):
        cid = "%s%d" % (what, len(lines))
        lines.append("%s %s %d %s" % (cid, what, dim, rest))
        info[cid] = (what, dim, extra, lines[-1])
    for dim, tol, h in hs:
        add("map", dim, "%d %d %s" % (tol, len(h), " ".join("%d %s" % (q["ask"], " ".join(map(str, q["p"]))) for q in h)), {"tol": tol, "qs": h})
    for k in range(scale(120)):
        for dim in (2, 3):
            c = hash_case(r, dim)
            if c:
                add("hash", dim, *c)
            add("unique", dim, *unique_case(r, dim))
            add("grid", dim, *grid_case(r, dim))
            add("round", dim, *round_case(r, dim))
    for k in range(scale(40)):
        for dim in (2, 3):
            nodes, faces, dx, lo, real = centre_case(r, dim)
            cells = [[f for f in range(len(faces))]]
            add("centre", dim, "%s %s %r" % (mesh_toks(dim, real, faces, cells)[5:], geom.rl(lo), dx),
                {"qs": [{"n": len(f), "sum": [sum(nodes[i][k] for i in f) for k in range(dim)]} for f in faces]})
            lo, hi = bounds(r, dim)
            far = [r.choice([0.0, 0.0, 5.0, -5.0]) * (h - l) for l, h in zip(lo, hi)]
            lo, hi = [l + f for l, f in zip(lo, far)], [h + f for h, f in zip(hi, far)]
            p = [[r.uniform(l, h) for l, h in zip(lo, hi)] for _ in range(r.randrange(1, 9))] + [lo, hi]
            more = [[r.uniform(l - (h - l), h + (h - l)) for l, h in zip(lo, hi)] for _ in range(r.randrange(0, 4))]
            deg = max(h - l for l, h in zip(lo, hi)) * r.choice([1e-2, 1e-4, 1e-7])
            add("system", dim, "%s %s %r" % (geom.rl([x for q in p for x in q]), geom.rl([x for q in more for x in q]), deg), {})
    res = vp.run_cases(exe, lines, ck.work, "quant", per_case=1.0, base=60.0)
    tl, ids = [], []
    for cid, (what, dim, x, l) in info.items():
        rec = res.get(cid, {})
        if "crash" in rec:
            ck.violation("%s ends abnormally (%s): %s" % (what, rec["crash"], l[:400]), {"line": l})
            continue
        if "skipped" in rec or not rec:
            continue
        q = {"what": what, "dim": dim, "top": rec.get("top", 0)}
        q.update({k: v for k, v in x.items() if k != "qs"})
        if what == "unique":
            q["qs"] = [dict(x["qs"][0], map=rec["map"], given=rec["given"], points=rec["points"])]
        elif what == "system":
            q["qs"] = rec["qs"]
        else:
            q["qs"] = [dict(a, **b) for a, b in zip(x["qs"], rec["qs"])]
            if len(rec["qs"]) != len(x["qs"]):
                raise CheckError("results of %s are missing" % l[:200])
        tl.append(q)
        ids.append(l)
    inv = ["InvBins", "InvBox", "InvUnhash", "InvSameKey", "InvUnique", "InvQuantised", "InvDequantised", "InvIndex", "InvSystem", "InvCentre", "InvLookup"]
    t, bad = vp.check_cases("QuantizeTrace", tl, inv, ck.work, "trace", timeout=800)
    ck.add_tlc(t)
    ck.cov["evaluations"] += sum(len(x["qs"]) for x in tl)
    ck.cov["traces_validated_against_impl"] += len(tl)
    kinds = {}
    for x in tl:
        kinds[x["what"]] = kinds.get(x["what"], 0) + 1
    ck.cov["parts"]["recorded"] = kinds
    for k in (0, len(tl) // 2, len(tl) - 1):
        ck.sample({"case": ids[k][:300]})
    for k, i in sorted(set(bad)):
        ck.violation("%s fails: %s" % (i, ids[k][:500]), {"invariant": i, "line": ids[k][:20000], "trace": tl[k]})
    return ck.finish()
