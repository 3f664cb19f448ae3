"""C20: histories generated from Session.tla replayed on the library; equivalent statements."""
import json, os, re
import vp, vpbuild, exact
from vp import Check, CheckError, THOROUGH
from geom import *
from c_tess import Case, DOMS, DATA, line_of, is_box, pick_gens, random_cases, driver, scale


def bits(rec):
    """A reply with its coordinates as digit strings."""
    return {"mesh": json.dumps({k: ([float(x).hex() if not isinstance(x, str) else x for x in rec[k]] if k == "nodes" else rec[k])
                                for k in ("nodes", "faces", "cells", "faceCells", "bnodes", "bfaces", "neighbors", "sharedNodes", "sharedFaces", "hull")},
                               separators=(",", ":")),
            "map": rec["map"], "kept": rec["inputsKept"]}


def reslot(line, cid, slot):
    t = line.split(" ")
    t[0], t[2] = cid, str(slot)
    return " ".join(t)


def degen_line(cid, d, g, pl, op):
    g = g + g[:2] + [g[-1]]
    return line_of(cid, op, 1, g, d, pl, tol=1e-7 * pl.s)


def make_book(r, b):
    """One request of every kind."""
    out = []
    def add(d, g, pl, op):
        out.append(line_of("x", op, 1, g, d, pl))
    orphans = json.load(open(os.path.join(DATA, "orphans.json")))
    for kind in ("unb", "box", "plc", "nonconvex", "orphan", "holed", "degen", "degenunb", "line"):
        pl = r.choice(placements(r, 5))
        if kind == "unb":
            add(None, pick_gens(r, None, [3, 6, 12]), pl, "unb")
        elif kind == "box":
            pl = Placement(pl.s, pl.ox, pl.oy)
            add(BOX16 if b % 2 else BOXR, pick_gens(r, BOX16 if b % 2 else BOXR, [2, 5, 12]), pl, "box")
        elif kind == "plc":
            d = r.choice([TRI, HEXA])
            add(d, pick_gens(r, d, [3, 8]), pl, "rplc")
        elif kind == "nonconvex":
            d = r.choice(NONCONVEX)
            add(d, pick_gens(r, d, [3, 8]), pl, "plc")
        elif kind == "orphan":
            e = r.choice(orphans)
            add(DOMS[e["dom"]], [tuple(p) for p in e["g"]], pl, "plc")
        elif kind == "holed":
            d = r.choice(HOLED)
            add(d, pick_gens(r, d, [6, 9]), pl, r.choice(["plc", "rplc"]))
        elif kind == "degen":
            d = r.choice(CONVEX)
            out.append(degen_line("x", d, pick_gens(r, d, [3, 6]), pl, "plc"))
        elif kind == "degenunb":
            out.append(degen_line("x", None, pick_gens(r, None, [4, 6]), pl, "unb"))
        elif kind == "line":
            add(BOX16, [(3, y) for y in range(1, 12, 3)], pl, "plc")
    return out


def histories(ck, kinds, slots, n):
    cfg = "INIT Init\nNEXT Next\nCONSTANTS Kinds = %d\nSlots = %d\nMaxLen = %d\nINVARIANT HeldIsLast\nINVARIANT Emit\n" % (kinds, slots, n)
    t = vp.tlc("Session", cfg, ck.work, "session%d" % n, workers=4)
    if not t.ok:
        raise CheckError("Session.tla: " + t.log[-2000:])
    ck.add_tlc(t)
    return sorted(json.loads(json.loads('"' + m + '"')) for m in re.findall(r'"HIST (.*)"', t.log))


def sessions(ck, r):
    exe = driver(ck)
    books, cases = [], []
    nb = 6 if THOROUGH else 2
    hs = histories(ck, 9, 2, 2)
    hs3 = histories(ck, 9, 2, 3)
    for b in range(nb):
        lines = make_book(r, b)
        refs = []
        for k, l in enumerate(lines):
            rec = vp.run_cases(exe, [reslot(l, "r", 1)], ck.work, "ref%d_%d" % (b, k))["r"]
            if "crash" in rec:
                ck.violation("the library ends abnormally on %s" % l, {"line": l})
                return
            refs.append(bits(rec))
        books.append({"refs": refs})
        use = hs + [r.choice(hs3) for _ in range(len(hs3) // 4 if THOROUGH else 120)]
        ls, ids = [], []
        for h, hist in enumerate(use):
            for i, (s, k) in enumerate(hist):
                ls.append(reslot(lines[k - 1], "h%d_%d" % (h, i), s + 1))
        res = vp.run_cases(exe, ls, ck.work, "hist%d" % b, per_case=2.0)
        for h, hist in enumerate(use):
            reps = [res.get("h%d_%d" % (h, i), {}) for i in range(len(hist))]
            bad = [x for x in reps if "crash" in x]
            if bad:
                ck.violation("the library ends abnormally (%s) in history %s of book %d" % (bad[0]["crash"], hist, b), {"hist": hist, "lines": lines})
                continue
            if any("nodes" not in x for x in reps):
                continue
            cases.append({"book": b + 1, "hist": hist, "replies": [bits(x) for x in reps], "lines": lines})
    book = os.path.join(ck.work, "book.ndjson")
    vp.write_ndjson(book, books)
    path = os.path.join(ck.work, "hist.ndjson")
    vp.write_ndjson(path, [{k: c[k] for k in ("book", "hist", "replies")} for c in cases])
    inv = ["InvSame", "InvMap", "InvKept"]
    t = vp.tlc("HistoryTrace", "INIT Init\nNEXT Next\n" + "".join("INVARIANT %s\n" % i for i in inv), ck.work, "hist",
               env={"TRACE": path, "BOOK": book}, args=["-continue"], timeout=900)
    ck.add_tlc(t)
    want = sum(1 + len(c["hist"]) for c in cases)
    bad = [(int(m.group(2)), int(m.group(3)), m.group(1)) for m in
           re.finditer(r"Invariant (\w+) is violated.*?\n(?:.*\n)*?.*?/\\ c = (\d+)\s*\n/\\ i = (\d+)", t.log)]
    if t.ok:
        if t.distinct < want:
            raise CheckError("TLC visited %d of %d states" % (t.distinct, want))
    elif not t.violated:
        raise CheckError("TLC did not decide the histories\n" + t.log[-3000:])
    for inv_ in sorted(set(t.violated)):
        c = cases[0]
        for x in cases:
            for i, (s, k) in enumerate(x["hist"]):
                ref = books[x["book"] - 1]["refs"][k - 1]
                if (inv_ == "InvSame" and x["replies"][i]["mesh"] != ref["mesh"]) or (inv_ == "InvMap" and x["replies"][i]["map"] != ref["map"]) or \
                   (inv_ == "InvKept" and not x["replies"][i]["kept"]):
                    c = x
                    break
        ck.violation("%s fails in history %s (slot, request kind) of book %d" % (inv_, c["hist"], c["book"]),
                     {"invariant": inv_, "hist": c["hist"], "requests": c["lines"]})
    ck.cov["evaluations"] += want * len(inv)
    ck.cov["traces_validated_against_impl"] += len(cases)
    ck.cov["parts"]["histories"] = {"books": nb, "histories": len(cases)}
    if cases:
        ck.sample({"history": cases[0]["hist"], "first request": cases[0]["lines"][cases[0]["hist"][0][1] - 1][:300]})


def restate(r, c):
    """Another statement of the same domain: (line tail) points and PLC tokens."""
    loops = [c.d.outer] + c.d.holes
    pts, order = [], []
    rot = [r.randrange(len(l)) for l in loops]
    loops = [l[k:] + l[:k] for l, k in zip(loops, rot)]
    holes = list(range(1, len(loops)))
    r.shuffle(holes)
    flat = [(i, j) for i in range(len(loops)) for j in range(len(loops[i]))]
    place = list(flat)
    if r.random() < 0.6:
        r.shuffle(place)
    idx = {v: k for k, v in enumerate(place)}
    coords = [loops[i][j] for i, j in place]
    s = [str(len(loops[0]))] + ["2 %d %d" % (idx[0, j], idx[0, (j + 1) % len(loops[0])]) for j in range(len(loops[0]))]
    s.append(str(len(holes)))
    for h in holes:
        s.append(str(len(loops[h])))
        s += ["2 %d %d" % (idx[h, j], idx[h, (j + 1) % len(loops[h])]) for j in range(len(loops[h]))]
    return coords, " ".join(s)


def statements(ck, r):
    exe = driver(ck)
    cases = random_cases(r, [("unb", scale(60)), ("convex", scale(160)), ("nonconvex", scale(80)), ("holed", scale(60))], "q")
    lines, info = [], []
    for c in cases:
        perm = list(range(len(c.g)))
        r.shuffle(perm)                    # new position perm[i] of generator i
        g2 = [None] * len(c.g)
        for i, p in enumerate(perm):
            g2[p] = c.g[i]
        lines.append(line_of(c.id + "a", c.op, 1, c.g, c.d, c.pl))
        lines.append(line_of(c.id + "b", c.op, 1, g2, c.d, c.pl))
        ident = [i + 1 for i in range(len(c.g))]
        info.append((c, c.id + "a", c.id + "b", [p + 1 for p in perm], "the generators reordered"))
        if c.d is not None:
            coords, toks_ = restate(r, c)
            other = "rplc" if c.op != "rplc" else "plc"
            lines.append("%s %s 1 %s %s %s" % (c.id + "c", other, rl(c.pl.flat(c.g)), rl(c.pl.flat(coords)), toks_))
            info.append((c, c.id + "a", c.id + "c", ident, "the domain restated"))
            if is_box(c.d) and c.pl.n == 0.0:
                lines.append(line_of(c.id + "d", "box", 1, c.g, c.d, c.pl))
                info.append((c, c.id + "a", c.id + "d", ident, "the domain as a box"))
        # no generators coincide: the degenerate request is the same request
        if c.op != "box":
            lines.append(line_of(c.id + "e", c.op, 1, c.g, c.d, c.pl, tol=1e-7 * c.pl.s))
            info.append((c, c.id + "a", c.id + "e", ident, "a degenerate request without coincident generators"))
    res = vp.run_cases(exe, lines, ck.work, "same")
    by = {l.split()[0]: l for l in lines}
    tl, ids = [], []
    for c, a, b, perm, what in info:
        ra, rb = res.get(a, {}), res.get(b, {})
        if "crash" in ra or "crash" in rb:
            ck.violation("the library ends abnormally on %s" % json.dumps(c.desc())[:400], {"lines": [by[a], by[b]]})
            continue
        if "nodes" not in ra or "nodes" not in rb:
            continue
        S = S_B if c.d else S_U
        tl.append({"a": mesh_of(ra, c.pl, S), "b": mesh_of(rb, c.pl, S), "perm": perm, "tol": 64 if c.d else 512})
        ids.append((c, a, b, what))
    t, bad = vp.check_cases("SameTrace", tl, ["InvCount", "InvCells"], ck.work, "same")
    ck.add_tlc(t)
    ck.cov["evaluations"] += 2 * len(tl)
    ck.cov["traces_validated_against_impl"] += len(tl)
    ck.cov["parts"]["statements"] = {"pairs": len(tl)}
    for k, i in sorted(set(bad)):
        c, a, b, what = ids[k]
        ck.violation("%s fails: %s changes the cells of %s" % (i, what, json.dumps(c.desc())[:500]), {"invariant": i, "lines": [by[a], by[b]], "trace": tl[k]})


def c20():
    ck = Check("C20", "model_checking")
    sessions(ck, vp.rng("C20", "h"))
    statements(ck, vp.rng("C20", "s"))
    return ck.finish()
