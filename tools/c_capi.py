"""C13: sessions of calls to the C interface."""
import json, re
import vp, vpbuild
from vp import Check, CheckError, THOROUGH
from c_tess import scale, DOMS, pick_gens, random_cases

WRAP = ["-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc"]


def driver():
    return vpbuild.build("capi", ["capi.cc"], c_api=True, libs=WRAP)


def histories(ck, name, mode, slots, sets, maxlen, simulate=None):
    cfg = ('INIT Init\nNEXT Next\nCONSTANTS Mode = "%s"\nSlots = {%s}\nSets = {%s}\nMaxLen = %d\nINVARIANT HoldsOnlyIfLive\nINVARIANT Emit\n'
           % (mode, ", ".join(map(str, slots)), ", ".join(map(str, sets)), maxlen))
    args = ["-simulate", "num=%d" % simulate, "-depth", str(maxlen + 1), "-seed", str(vp.SEED)] if simulate else []
    t = vp.tlc("CSessionModel", cfg, ck.work, name, timeout=300, workers=1 if simulate else "auto", args=args)
    if t.violated or (not simulate and not t.ok) or (simulate and t.rc != 0):
        raise CheckError("CSessionModel fails:\n" + t.log[-3000:])
    ck.add_tlc(t)
    hs = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'"HIST (.*)"', t.log)]
    ck.cov["parts"][name] = {"states": t.distinct, "histories": len(hs)}
    return sorted({json.dumps(h): h for h in hs}.values(), key=json.dumps)


def loop(pts):
    return [x for p in pts for x in p]


def shapes(r):
    """Coordinates of the outlines 1-3 of CSessionModel, and boxes, in one frame."""
    x0, y0 = r.uniform(-3, 3), r.uniform(-3, 3)
    L = r.choice([1.0, 10.0, 0.01])
    P = lambda u, v: (x0 + u * L, y0 + v * L)
    sq = [P(0, 0), P(1, 0), P(1, 1), P(0, 1)]
    hole = [P(.45, .45), P(.45, .6), P(.6, .6), P(.6, .45)]
    ell = [P(0, 0), P(1, 0), P(1, .5), P(.5, .5), P(.5, 1), P(0, 1)]
    pts = {1: loop(sq), 2: loop(sq + hole), 3: loop(ell)}
    boxes = {1: P(0, 0) + P(1, 1), 2: P(-.5, -.25) + P(1.25, 1.5)}
    def gens(n):
        out = []
        while len(out) < n:
            u, v = r.uniform(.03, .97), r.uniform(.03, .97)
            if (u > .45 and v > .45 and not (u < .43 and v < .43)) or (.43 < u < .62 and .43 < v < .62):
                continue
            out.append(P(u, v))
        return loop(out)
    return pts, boxes, gens


def tokens(h, boxes):
    out = []
    for o in h:
        k, s = o["op"], o["slot"]
        if k == "build":
            w = o["shape"]
            n = {1: 4, 2: 4, 3: 6}[w]
            seq = [["Paf %d" % s] for _ in range(n)]
            for i in range(n):
                seq.append(["Pan %d %d %d" % (s, i, i), "Pan %d %d %d" % (s, i, (i + 1) % n)])
            if w == 2:
                seq.append(["Pah %d" % s])
                for i in range(4):
                    seq.append(["Phf %d 0" % s, "Phn %d 0 %d %d" % (s, i, 4 + i), "Phn %d 0 %d %d" % (s, i, 4 + (i + 1) % 4)])
            out += [x for p in seq for x in p]
        elif k in ("Pn", "Mn"):
            out.append("%s %d %d" % (k, s, o["dim"]))
        elif k in ("Mp", "Pp"):
            out.append("%s %d %d" % (k, s, (1, 7, 40, 400)[len(out) % 4]))
        elif k == "Pan":
            out.append("Pan %d %d %d" % (s, o["f"], o["n"]))
        elif k == "Phf":
            out.append("Phf %d %d" % (s, o["h"]))
        elif k == "Phn":
            out.append("Phn %d %d %d %d" % (s, o["h"], o["f"], o["n"]))
        elif k == "tu":
            out.append("tu %d %d %d" % (s, o["g"], o["mesh"]))
        elif k == "tb":
            out.append("tb %d %d %d %s" % (s, o["g"], o["mesh"], " ".join(x.hex() for x in boxes[o["box"]])))
        elif k == "tp":
            out.append("tp %d %d %d %d %d" % (s, o["g"], o["mesh"], o["plc"], o["shape"] - 1))
        else:
            out.append("%s %d" % (k, s))
    return out


def reals(xs):
    return " ".join([str(len(xs))] + [float(x).hex() for x in xs])


def c13():
    ck = Check("C13", "model_checking")
    r = vp.rng("C13")
    exe = driver()
    ho = histories(ck, "outline_calls", "outline", [0], [0], 5)
    hl = histories(ck, "life", "life", [0], [0], 5)
    ho2 = histories(ck, "long_outlines", "outline", [0, 1], [0], 14, simulate=scale(150))
    hl2 = histories(ck, "long_lives", "life", [0, 1], [0, 1, 2], 24, simulate=scale(260))
    ho = r.sample(ho, min(len(ho), scale(250)))
    hl = r.sample(hl, min(len(hl), scale(250)))
    # in long simulated lives most calls should matter: keep those that tessellate often
    ho2 = r.sample(ho2, min(len(ho2), scale(200)))
    hl2.sort(key=lambda h: -sum(o["op"][0] == "t" for o in h))
    hl2 = hl2[:scale(170)]
    lines, info = [], {}
    for tag, hs in (("o", ho), ("l", hl), ("O", ho2), ("L", hl2)):
        for k, h in enumerate(hs):
            pts, boxes, gens = shapes(r)
            ops = tokens(h, boxes)
            sizes = [r.choice([2, 3, 4]), r.choice([3, 5, 7]), r.choice([4, 6, 10])]
            l = "%s%d 3 %s 3 %s %d %s" % (tag, k, " ".join(reals(gens(n)) for n in sizes), " ".join(reals(pts[w]) for w in (1, 2, 3)), len(ops), " ".join(ops))
            lines.append(l)
            info["%s%d" % (tag, k)] = (h, l)
    # every kind of outline and domain of the repository's geometry families, once
    for k, c in enumerate(random_cases(r, [("unb", scale(10)), ("convex", scale(25)), ("nonconvex", scale(15)), ("holed", scale(15))], "d", sizes=(3, 6, 12, 25))):
        ops = ["Tn 0", "Mn 0 2", "Pn 0 2"]
        d, pp = c.d, []
        if d is None:
            ops.append("tu 0 0 0")
        else:
            pp = c.pl.flat(d.outer + sum(d.holes, []))
            n = len(d.outer)
            for i in range(n):
                ops += ["Paf 0", "Pan 0 %d %d" % (i, i), "Pan 0 %d %d" % (i, (i + 1) % n)]
            for j, hole in enumerate(d.holes):
                ops.append("Pah 0")
                m = len(hole)
                for i in range(m):
                    ops += ["Phf 0 %d" % j, "Phn 0 %d %d %d" % (j, i, n + i), "Phn 0 %d %d %d" % (j, i, n + (i + 1) % m)]
                n += m
            ops.append("tp 0 0 0 0 0")
        ops += ["Mc 0", "Ti 0", "tu 0 0 0"] if k % 2 else []
        l = "d%d 1 %s 1 %s %d %s" % (k, reals(c.pl.flat(c.g)), reals(pp), len(ops), " ".join(ops))
        lines.append(l)
        info["d%d" % k] = (ops, l)
    res = vp.run_cases(exe, lines, ck.work, "capi", per_case=5.0, base=60.0)
    tl, ids = [], []
    for cid, (h, l) in info.items():
        rec = res.get(cid, {})
        if "crash" in rec:
            ck.violation("a session of C calls ends abnormally (%s): %s" % (rec["crash"], json.dumps(h)[:500]), {"line": l})
        elif "ops" in rec:
            tl.append({"ops": rec["ops"], "leaked": rec["leaked"], "bad": rec["bad"]})
            ids.append((h, l))
    inv = ["InvLegal", "InvReturned", "InvOutlines", "InvMeshes", "InvInputs", "InvHull", "InvTessellators", "InvPrinted", "InvHeap", "InvNoLeak"]
    t, bad = vp.check_cases("CTrace", tl, inv, ck.work, "trace", timeout=800)
    ck.add_tlc(t)
    ck.cov["evaluations"] += sum(len(x["ops"]) for x in tl)
    ck.cov["traces_validated_against_impl"] += len(tl)
    ck.cov["parts"]["calls_replayed"] = sum(len(x["ops"]) for x in tl)
    for k in (0, len(tl) // 2, len(tl) - 1):
        ck.sample({"session": ids[k][0]})
    for k, i in sorted(set(bad)):
        h, l = ids[k]
        ck.violation("%s fails in the session of C calls %s" % (i, json.dumps(h)[:600]), {"invariant": i, "line": l, "trace": tl[k]})
    return ck.finish()
