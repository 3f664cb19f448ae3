"""C06-C09, C19: distributed tessellations recorded on several processes, decided by
DistTrace and MpiTrace; Exchange is the design model of the protocol."""
import json, os
import vp, vpbuild, exact
from vp import Check, CheckError, THOROUGH
from geom import *
from c_tess import DOMS, DATA, line_of, is_box, pick_gens, scale

EPS = exact.F(1, 24)
WIN = Domain("window", [(-2, -2), (18, -2), (18, 18), (-2, 18)])
S = 1 << 16
TOL = 8


def driver():
    return vpbuild.build("dist", ["dist.cc", "vpmpi.cc"])


def owners(r, g, np, least):
    n = len(g)
    while True:
        k = r.randrange(6)
        if k == 0:                    # at random
            o = [r.randrange(np) for _ in g]
        elif k == 1:                  # in strips
            s = sorted(range(n), key=lambda i: g[i])
            o = [0] * n
            for j, i in enumerate(s):
                o[i] = j * np // n
        elif k == 2:                  # in blobs
            c = [r.choice(g) for _ in range(np)]
            o = [min(range(np), key=lambda q: (c[q][0] - p[0]) ** 2 + (c[q][1] - p[1]) ** 2) for p in g]
        elif k == 3:                  # dealt out
            o = [i % np for i in range(n)]
        elif k == 4:                  # one process has nearly everything
            o = [0] * n
            for q in range(1, np):
                o[r.randrange(n)] = q
        else:                         # in rings
            s = sorted(range(n), key=lambda i: (g[i][0] - 8) ** 2 + (g[i][1] - 8) ** 2)
            o = [0] * n
            for j, i in enumerate(s):
                o[i] = j * np // n
        p = list(range(np))
        r.shuffle(p)
        o = [p[q] for q in o]
        if all(o.count(q) >= least for q in range(np)):
            return o
        if least == 0:
            return o


class DCase:
    def __init__(self, cid, algo, np, d, g, o, pl, op, comm=1, mode=0, seed=0, key=None):
        self.id, self.algo, self.np, self.d, self.g, self.o, self.pl, self.op = cid, algo, np, d, g, o, pl, op
        self.comm, self.mode, self.seed, self.key = comm, mode, seed, key

    def line(self, cid=None, mode=None, seed=None):
        t = line_of("x", self.op, 1, self.g, self.d, self.pl).split(" ")
        n = 2 * len(self.g)
        return " ".join([cid or self.id, self.algo, str(self.mode if mode is None else mode), str(self.seed if seed is None else seed), str(self.comm), self.op]
                        + t[3:4 + n] + [str(len(self.o))] + [str(x) for x in self.o] + t[4 + n:])

    def serial(self, gens=None):
        """The serial request; generators in the given order."""
        return line_of(self.id, self.op, 1, gens or self.g, self.d, self.pl)

    def desc(self):
        return {"algorithm": self.algo, "processes": self.np, "domain": self.d.name if self.d else "unbounded", "generators": self.g,
                "owners": self.o, "placement": self.pl.desc(), "call": self.op, "comm": self.comm, "line": self.line()}


def make_cases(r, count, nps, algo, kinds, prefix, general=True, least=1, comm=1, sizes=(5, 8, 12, 20, 30)):
    out = []
    while len(out) < count:
        np = nps[len(out) % len(nps)]
        kind = r.choice(kinds)
        d = r.choice({"unb": [None], "convex": CONVEX, "nonconvex": NONCONVEX, "holed": HOLED}[kind])
        pl = r.choice(placements(r, 6))
        g = pick_gens(r, d, [n for n in sizes if n >= np * max(least, 1)])
        if len(g) < np * max(least, 1) or len(g) < 2:
            continue
        if d is None and all(cross(g[0], g[1], p) == 0 for p in g):
            continue          # what closes parallel strips depends on the extent of the generators
        if general:
            w = d or WIN
            if not exact.general(g, w.outer, w.holes, EPS):
                continue
        if kind in ("nonconvex", "holed") and exact.classify(g, d.outer, d.holes) != "plain":
            continue
        op = "unb" if d is None else "box" if is_box(d) and pl.n == 0.0 and r.random() < 0.5 else r.choice(["plc", "rplc"])
        o = owners(r, g, np, least)
        out.append(DCase("%s%d" % (prefix, len(out)), algo, np, d, g, o, pl, op, comm, r.randrange(4), r.randrange(1000)))
    return out


def part_of(rec, pl, ids):
    m = mesh_of(rec, pl, S)
    n = rec["nodes"]
    m["bits"] = [ids.setdefault((n[2 * i], n[2 * i + 1]), len(ids)) for i in range(len(n) // 2)]
    m["neighbors"], m["sharedNodes"], m["sharedFaces"] = rec["neighbors"], rec["sharedNodes"], rec["sharedFaces"]
    m["verdict"] = "ok" if rec.get("verdict", "ok") == "ok" else "bad"
    m["kept"] = rec.get("kept", True)
    return m


def trace_of(c, recs, ser):
    """One DistTrace line."""
    ids = {}
    order = serial_order(c)
    # a mesh that is wildly wrong must stay representable
    parts = [part_of(x, c.pl, ids) for x in recs]
    sm = part_of(dict(ser, neighbors=[], sharedNodes=[], sharedFaces=[]), c.pl, ids)
    return {"n": c.np, "owner": c.o, "parts": parts, "serial": sm, "order": [k + 1 for k in order], "tol": TOL,
            "exact": c.algo == "repl", "win": [-S, -S, 17 * S, 17 * S] if c.d is None else [-40 * S, -40 * S, 60 * S, 60 * S]}


def serial_order(c):
    """The order in which the serial tessellation is given the generators."""
    if c.algo == "repl":
        return [i for q in range(c.np) for i in range(len(c.g)) if c.o[i] == q]
    return list(range(len(c.g)))


def run(ck, cases, inv, name):
    exe, texe = driver(), vpbuild.build("tess", ["tess.cc"])
    ser = vp.run_cases(texe, [c.serial([c.g[i] for i in serial_order(c)]) for c in cases], ck.work, name + "s")
    tl, ids = [], []
    for np in sorted({c.np for c in cases}):
        mine = [c for c in cases if c.np == np]
        res = vp.run_mpi_cases(exe, [c.line() for c in mine], np, ck.work, "%s%d" % (name, np))
        for c in mine:
            x = res.get(c.id, {"crash": "no record"})
            if isinstance(x, dict):
                if not x.get("skipped"):
                    ck.violation("the processes do not all return (%s) on %s" % (x["crash"], json.dumps(c.desc())[:600]), {"case": c.desc(), "log": x.get("log", "")}, c.key and c.key + "/returns")
                continue
            if "crash" in ser[c.id] or ser[c.id].get("skipped"):
                if ser[c.id].get("skipped"):
                    continue
                ck.violation("the serial library ends abnormally on %s" % json.dumps(c.desc())[:600], {"case": c.desc()}, c.key)
                continue
            if not all(finite(y) for y in x + [ser[c.id]]):
                ck.violation("a coordinate is not finite on %s" % json.dumps(c.desc())[:600], {"case": c.desc()}, c.key)
                continue
            t = trace_of(c, x, ser[c.id])
            if any(abs(v) > 2 ** 30 for m in t["parts"] + [t["serial"]] for p in m["nodes"] for v in p):
                ck.violation("a node lies far outside any sensible bound on %s" % json.dumps(c.desc())[:500], {"case": c.desc()}, c.key)
                continue
            tl.append(t)
            ids.append(c)
    if not tl:
        return
    t, bad = vp.check_cases("DistTrace", tl, inv, ck.work, name)
    ck.add_tlc(t)
    ck.cov["evaluations"] += len(tl) * len(inv)
    ck.cov["traces_validated_against_impl"] += len(tl)
    ck.cov["parts"][name] = {"requests": len(tl), "processes": sorted({c.np for c in ids}), "cells": sum(len(p["cells"]) for x in tl for p in x["parts"]),
                             "shared_nodes": sum(len(s) for x in tl for p in x["parts"] for s in p["sharedNodes"]), "predicates": inv}
    for k in range(0, len(tl), max(1, len(tl) // 2)):
        ck.sample({"request": ids[k].desc(), "neighbors": [p["neighbors"] for p in tl[k]["parts"]]})
    for k, i in sorted(set(bad)):
        c = ids[k]
        ck.violation("%s fails on %s" % (i, json.dumps(c.desc())[:700]), {"invariant": i, "case": c.desc(), "trace": tl[k]}, c.key and c.key + "/" + i)


def curated(pid):
    return [DCase(e["key"], "dist", e["np"], DOMS[e["dom"]] if e["dom"] else None, [tuple(p) for p in e["g"]], e["o"], Placement(*e["pl"]), e["op"], key=e["key"])
            for e in json.load(open(os.path.join(DATA, "known_dist.json"))) if e["property"] == pid]


NPS = [2, 3, 4, 5] if THOROUGH else [2, 3, 4]
KINDS = ["convex", "convex", "convex", "nonconvex", "holed"]
C06 = ["InvTopology", "InvBoundary", "InvCount", "InvCells", "InvAdjacent", "InvKept"]
C07 = ["InvTopology", "InvNeighbors", "InvMutual", "InvSharedValid", "InvSameNodes", "InvSameFaces", "InvAllNodes", "InvAllFaces", "InvNoIdleNeighbor", "InvVerdict"]
C09 = C06 + ["InvExactCells"] + C07[1:]


def c06():
    ck = Check("C06", "model_checking")
    r = vp.rng("C06")
    run(ck, make_cases(r, scale(150), NPS, "dist", KINDS, "a"), C06, "bounded")
    run(ck, make_cases(r, scale(24), NPS, "dist", ["unb"], "u", comm=0), C06, "unbounded")
    run(ck, curated("C06"), C06, "known")
    run(ck, make_cases(r, scale(45), NPS, "dist", KINDS, "n", comm=0), C06, "nocomm")
    run(ck, make_cases(r, scale(30), NPS, "dist", ["convex"], "s", sizes=(4, 5, 6)), C06, "few")
    return ck.finish()


def c07():
    ck = Check("C07", "model_checking")
    r = vp.rng("C07")
    run(ck, make_cases(r, scale(170), NPS, "dist", KINDS, "a"), C07, "bounded")
    run(ck, make_cases(r, scale(40), NPS, "dist", ["convex"], "s", sizes=(4, 5, 6)), C07, "few")
    run(ck, curated("C07"), C07, "known")
    return ck.finish()


def c09():
    ck = Check("C09", "model_checking")
    r = vp.rng("C09")
    run(ck, make_cases(r, scale(120), NPS, "repl", KINDS, "a"), C09, "general")
    run(ck, make_cases(r, scale(60), NPS, "repl", ["convex", "unb"], "d", general=False, least=0), C09, "any")
    return ck.finish()


# ---------------------------------------------------------------- C08

def exchange(ck, n, rendezvous, broken, sizes, expect_ok=True):
    cfg = ("INIT Init\nNEXT Next\nCONSTANTS N = %d\nRendezvous = %s\nBroken = \"%s\"\nSizes = %s\n" % (n, str(rendezvous).upper(), broken, str(sizes).upper())
           + "".join("INVARIANT %s\n" % i for i in ("Completes", "Delivered", "Collectives", "Clean", "Requests")))
    name = "exchange_%d_%s_%s_%s" % (n, rendezvous, broken, sizes)
    t = vp.tlc("Exchange", cfg, ck.work, name, timeout=3000 if THOROUGH else 300)
    if t.ok != expect_ok or (not t.ok and not (t.violated or "is violated" in t.log)):
        raise CheckError("the design model %s: expected %s\n%s" % (name, expect_ok, t.log[-2500:]))
    if expect_ok:
        ck.add_tlc(t)
    ck.cov["parts"][name] = {"states": t.distinct, "holds": t.ok}


MPI = ["InvCompletes", "InvDelivered", "InvCollectives", "InvNothingLeft", "InvRequests", "InvBuffers", "InvKnown", "InvSame", "InvOutside"]


def c08():
    ck = Check("C08", "model_checking")
    r = vp.rng("C08")
    exchange(ck, 3, True, "none", False)
    exchange(ck, 3, True, "blocking", False, False)
    exchange(ck, 3, False, "onesided", False, False)
    exchange(ck, 3, False, "disagree", False, False)
    if THOROUGH:
        exchange(ck, 3, True, "none", True)
        exchange(ck, 3, False, "none", True)
        exchange(ck, 2, True, "none", True)
    exe = driver()
    cases = (make_cases(r, scale(45), NPS + [5], "dist", KINDS, "a") + make_cases(r, scale(8), NPS, "dist", KINDS, "n", comm=0)
             + make_cases(r, scale(8), NPS, "repl", KINDS, "r") + make_cases(r, scale(4), NPS, "repl", KINDS, "q", comm=0)
             + make_cases(r, scale(8), NPS, "dist", ["unb"], "u", comm=0) + make_cases(r, scale(8), NPS, "dist", ["convex"], "s", sizes=(4, 5, 6)))
    tl, ids = [], []
    ids_of_bits = {}
    for np in sorted({c.np for c in cases}):
        mine = [c for c in cases if c.np == np]
        lines = [c.line("%s.%d" % (c.id, m), m, 17 * m + c.seed) for c in mine for m in (0, 1, 2, 3)]
        res = vp.run_mpi_cases(exe, lines, np, ck.work, "x%d" % np)
        for c in mine:
            runs = [res.get("%s.%d" % (c.id, m), {"crash": "no record"}) for m in (0, 1, 2, 3)]
            gone = [x for x in runs if isinstance(x, dict)]
            if gone:
                if not gone[0].get("skipped"):
                    ck.violation("the processes do not all return (%s) on %s" % (gone[0]["crash"], json.dumps(c.desc())[:600]), {"case": c.desc(), "log": gone[0].get("log", "")})
                continue
            results = []
            for x in runs:
                b = json.dumps([{k: y[k] for k in ("nodes", "faces", "cells", "faceCells", "bnodes", "bfaces", "neighbors", "sharedNodes", "sharedFaces")} for y in x])
                results.append(ids_of_bits.setdefault(b, len(ids_of_bits)))
            for x in runs:
                tl.append({"logs": [y["log"] for y in x], "results": results, "left": sum(1 for y in x if y["left"]), "unfinished": sum(y["unfinished"] for y in x)})
                ids.append(c)
    t, bad = vp.check_cases("MpiTrace", tl, MPI, ck.work, "runs", timeout=850)
    ck.add_tlc(t)
    ck.cov["evaluations"] += len(tl) * 2
    ck.cov["traces_validated_against_impl"] += len(tl)
    ck.cov["parts"]["runs"] = {"runs": len(tl), "requests": len(cases), "operations": sum(len(l) for x in tl for l in x["logs"]),
                               "messages": sum(1 for x in tl for l in x["logs"] for e in l if e["k"] in ("isend", "send"))}
    for k in range(0, len(tl), max(1, len(tl) // 2)):
        ck.sample({"request": ids[k].desc(), "operations_per_process": [len(l) for l in tl[k]["logs"]]})
    for k, i in sorted(set(bad)):
        ck.violation("%s fails on %s" % (i, json.dumps(ids[k].desc())[:600]), {"invariant": i, "case": ids[k].desc(), "trace": tl[k]})
    return ck.finish()


# ---------------------------------------------------------------- C19

def claims(r, np):
    """What np processes claim to share: consistent, then (mostly) tampered with."""
    pts = [(x, y) for x in range(0, 17, 2) for y in range(0, 17, 2)]
    k = r.randrange(3)
    parts = []
    if k == 0:          # strips that overlap in a column
        cut = sorted(r.sample(range(2, 15, 2), np - 1))
        for q in range(np):
            lo, hi = ([0] + cut)[q], (cut + [16])[q]
            parts.append([p for p in pts if lo <= p[0] <= hi])
    elif k == 1:        # anything
        pool = r.sample(pts, 14)
        for q in range(np):
            parts.append(r.sample(pool, r.randrange(3, 9)))
    else:               # quadrant like, far corners kept apart
        for q in range(np):
            x, y = (q % 2) * 8, (q // 2) * 8
            parts.append([p for p in pts if x <= p[0] <= x + 8 and y <= p[1] <= y + 8] or [(x, y)])
    for p in parts:
        r.shuffle(p)
    nb, sh = [], []
    for q in range(np):
        ns = [o for o in range(np) if o != q and set(parts[o]) & set(parts[q])]
        nb.append(ns)
        sh.append([[parts[q].index(p) for p in sorted(set(parts[q]) & set(parts[o]))] for o in ns])
    what = "nothing"
    for _ in range(r.choice([0, 1, 1, 1, 2])):
        q = r.randrange(np)
        t = r.randrange(10)
        if t == 8:      # both drop each other
            if nb[q]:
                o = r.choice(nb[q])
                for a, b in ((q, o), (o, q)):
                    if b in nb[a]:
                        i = nb[a].index(b)
                        del nb[a][i], sh[a][i]
                what = "dropped on both sides"
        elif t == 9:    # both invent each other
            o = r.choice([x for x in range(np) if x != q])
            if o not in nb[q] and q not in nb[o]:
                for a, b in ((q, o), (o, q)):
                    i = sum(1 for x in nb[a] if x < b)
                    nb[a].insert(i, b)
                    sh[a].insert(i, [])
                what = "idle neighbours"
        elif t == 7 and len(nb[q]) < np - 1:      # one invents the other
            o = r.choice([x for x in range(np) if x != q and x not in nb[q]])
            i = sum(1 for x in nb[q] if x < o)
            nb[q].insert(i, o)
            sh[q].insert(i, [0] if r.random() < 0.5 else [])
            what = "invented"
        elif nb[q]:
            i = r.randrange(len(nb[q]))
            L = sh[q][i]
            if t == 0 and L:
                L.pop(r.randrange(len(L)))
                what = "lost a node"
            elif t == 1 and len(L) > 1:
                a, b = r.sample(range(len(L)), 2)
                L[a], L[b] = L[b], L[a]
                what = "order"
            elif t == 2 and L:
                L[r.randrange(len(L))] = r.randrange(len(parts[q]))
                what = "replaced"
            elif t == 3:
                del nb[q][i], sh[q][i]
                what = "forgot a neighbour"
            elif t == 4:
                L.insert(r.randrange(len(L) + 1), r.randrange(len(parts[q])))
                what = "one more"
            elif t == 5 and L:      # both lose the same node
                o = nb[q][i]
                if q in nb[o]:
                    j = nb[o].index(q)
                    p = parts[q][L.pop(r.randrange(len(L)))]
                    sh[o][j] = [x for x in sh[o][j] if parts[o][x] != p]
                    what = "lost on both sides"
            elif t == 6 and L:      # a node moved on one side
                m = r.choice(L)
                d = r.choice([1, 2, 1 / 64.0])
                parts[q][m] = (parts[q][m][0] + d, parts[q][m][1]) if r.random() < 0.5 else (parts[q][m][0], parts[q][m][1] + d)
                what = "moved"
    return parts, nb, sh, what


def c19():
    ck = Check("C19", "model_checking")
    r = vp.rng("C19")
    exe = driver()
    tl, ids, ml, mids = [], [], [], []
    kinds = {}
    for np in NPS:
        lines, info = [], {}
        for k in range(scale(150)):
            parts, nb, sh, what = claims(r, np)
            if any(len(set(p)) != len(p) for p in parts):
                continue
            s, ox = r.choice([(1.0, 0.0), (0.01, 0.0), (1000.0, -5000.0), (1.0, 3.0)])
            cid = "k%d" % k
            t = [cid, "check", str(k % 4), str(k), "1"]
            for q in range(np):
                t.append(rl([ox + s * v for p in parts[q] for v in p]))
                t.append(" ".join(map(str, [len(nb[q])] + nb[q])))
                t.append(str(len(sh[q])))
                t += [" ".join(map(str, [len(l)] + l)) for l in sh[q]]
            lines.append(" ".join(t))
            info[cid] = (parts, nb, sh, what)
            kinds[what] = kinds.get(what, 0) + 1
        res = vp.run_mpi_cases(exe, lines, np, ck.work, "k%d" % np)
        for cid, (parts, nb, sh, what) in info.items():
            x = res.get(cid, {"crash": "no record"})
            rep = {"nodes": parts, "neighbors": nb, "sharedNodes": sh, "tampering": what, "line": [l for l in lines if l.startswith(cid + " ")][0]}
            if isinstance(x, dict):
                if not x.get("skipped"):
                    ck.violation("the check does not return on every process (%s), %d processes, %s" % (x["crash"], np, what), {"case": rep, "log": x.get("log", "")})
                continue
            vs = {}
            tl.append({"n": np, "nodes": [[[int(round(v * 64)) for v in p] for p in P] for P in parts], "neighbors": nb, "shared": sh,
                       "verdicts": [vs.setdefault(y["verdict"], len(vs)) for y in x], "ok": [y["verdict"] == "ok" for y in x]})
            ids.append((rep, [y["verdict"] for y in x]))
            ml.append({"logs": [y["log"] for y in x], "results": [0], "left": 0, "unfinished": sum(y["unfinished"] for y in x)})
            mids.append(rep)
    t, bad = vp.check_cases("CommTrace", tl, ["InvVerdict", "InvSame"], ck.work, "claims")
    ck.add_tlc(t)
    for k, i in sorted(set(bad)):
        ck.violation("%s fails: processes say %s; %s" % (i, [v[:60] for v in ids[k][1]], json.dumps(ids[k][0])[:500]), {"invariant": i, "case": ids[k][0], "trace": tl[k]})
    t, bad = vp.check_cases("MpiTrace", ml, MPI, ck.work, "claimruns", timeout=850)
    ck.add_tlc(t)
    for k, i in sorted(set(bad)):
        ck.violation("%s fails in the consistency check's own communication: %s" % (i, json.dumps(mids[k])[:500]), {"invariant": i, "case": mids[k]})
    ck.cov["evaluations"] += 2 * len(tl) + 2 * len(ml)
    ck.cov["traces_validated_against_impl"] += len(tl)
    ck.cov["parts"]["claims"] = {"claims": len(tl), "accepted": sum(1 for x in tl if all(x["ok"])), "tampering": kinds}
    for k in range(0, len(tl), max(1, len(tl) // 2)):
        ck.sample({"claim": ids[k][0], "verdict": ids[k][1]})
    return ck.finish()
