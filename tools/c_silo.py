"""C14: Silo output of distributed meshes, written and read back."""
import json, os, shutil, struct
import vp, vpbuild
from vp import Check, CheckError, THOROUGH
from c_tess import scale

WRAP = ["-Wl,--wrap=DBCreateReal,--wrap=DBOpenReal,--wrap=DBClose"]


def driver():
    return vpbuild.build("silo", ["silo.cc"], c_api=True, libs=WRAP)


def num(r):
    return repr(r.choice([r.uniform(-5, 5), r.uniform(-1, 1) * 10 ** r.randrange(-20, 20), float(r.randrange(-3, 4)), 0.1]))


def lst(xs):
    return " ".join([str(len(xs))] + [str(x) for x in xs])


def lists(xs):
    return " ".join([str(len(xs))] + [lst(x) for x in xs])


def grid2(r):
    """A grid of quadrilaterals whose cells, faces and orientations are shuffled."""
    nx, ny = r.randrange(1, 5), r.randrange(1, 5)
    node = lambda i, j: i * (ny + 1) + j
    nn = (nx + 1) * (ny + 1)
    faces, ix = [], {}
    cells = []
    order = [(i, j) for i in range(nx) for j in range(ny)]
    r.shuffle(order)
    for i, j in order:
        loop = [node(i, j), node(i + 1, j), node(i + 1, j + 1), node(i, j + 1)]
        s = r.randrange(4)
        loop = loop[s:] + loop[:s]
        c = []
        for k in range(4):
            a, b = loop[k], loop[(k + 1) % 4]
            if (b, a) in ix:
                c.append(~ix[(b, a)])
            elif r.random() < 0.5 or (a, b) in ix:
                ix[(a, b)] = len(faces); c.append(len(faces)); faces.append([a, b])
            else:
                ix[(b, a)] = len(faces); c.append(~len(faces)); faces.append([b, a])
            if (a, b) in ix:
                c[-1] = ix[(a, b)]
        cells.append(c)
    return [num(r) for _ in range(2 * nn)], faces, cells


def grid3(r):
    nx, ny, nz = r.randrange(1, 3), r.randrange(1, 3), r.randrange(1, 4)
    node = lambda i, j, k: (i * (ny + 1) + j) * (nz + 1) + k
    faces, ix, cells = [], {}, []
    order = [(i, j, k) for i in range(nx) for j in range(ny) for k in range(nz)]
    r.shuffle(order)
    for i, j, k in order:
        v = lambda a, b, c: node(i + a, j + b, k + c)
        quads = [[v(0, 0, 0), v(0, 0, 1), v(0, 1, 1), v(0, 1, 0)], [v(1, 0, 0), v(1, 1, 0), v(1, 1, 1), v(1, 0, 1)],
                 [v(0, 0, 0), v(1, 0, 0), v(1, 0, 1), v(0, 0, 1)], [v(0, 1, 0), v(0, 1, 1), v(1, 1, 1), v(1, 1, 0)],
                 [v(0, 0, 0), v(0, 1, 0), v(1, 1, 0), v(1, 0, 0)], [v(0, 0, 1), v(1, 0, 1), v(1, 1, 1), v(0, 1, 1)]]
        r.shuffle(quads)
        c = []
        for q in quads:
            key = frozenset(q)
            if key in ix:
                c.append(~ix[key])
            else:
                ix[key] = len(faces); c.append(len(faces)); faces.append(q)
        cells.append(c)
    nn = (nx + 1) * (ny + 1) * (nz + 1)
    return [num(r) for _ in range(3 * nn)], faces, cells


def mesh_text(r, dim):
    nodes, faces, cells = (grid2 if dim == 2 else grid3)(r)
    fc = [[] for _ in faces]
    for i, c in enumerate(cells):
        for f in c:
            fc[f if f >= 0 else ~f].append(i if f >= 0 else ~i)
    bf = [f for f in range(len(faces)) if len(fc[f]) == 1]
    bn = sorted({n for f in bf for n in faces[f]})
    if r.random() < 0.5:
        r.shuffle(bf)
    return "M %s %s %s %s %s %s 0 0 0" % (lst(nodes), lists(faces), lists(cells), lists(fc), lst(bn), lst(bf)), len(nodes) // dim


def tess_text(r):
    n = r.randrange(3, 12)
    pts = set()
    while len(pts) < n:
        pts.add((r.randrange(1, 64) / 4.0, r.randrange(1, 64) / 4.0))
    return "T %s" % lst([x for p in sorted(pts) for x in p])


def payload(r, dim, names, tagnames):
    if dim == 2 and r.random() < 0.4:
        m, nn = tess_text(r), 4
    else:
        m, nn = mesh_text(r, dim)
    if r.random() < 0.5:
        hull = "%s 0" % lists([[r.randrange(nn) for _ in range(r.randrange(2, 5))] for _ in range(r.randrange(1, 6))])
    else:
        hull = "0 0"
    f = " ".join("%d %s" % (len(ns), " ".join("%s %d" % (n, r.randrange(1 << 30)) for n in ns)) for ns in names)
    t = []
    for ns in tagnames:
        vals = [[r.randrange(-5, 40) for _ in range(r.choice([0, 1, 1, 2, 5]))] for _ in ns]
        if ns and not any(vals):
            vals[0] = [7]        # Silo stores no array without values
        t.append("%d %s" % (len(ns), " ".join("%s %s" % (n, lst(v)) for n, v in zip(ns, vals))))
    return " ".join([m, hull, f, " ".join(t)])


def write(r, dim, np, prefix, dr, cycle, nfiles):
    pool = ["rho", "u", "phi_1", "temperature", "B", "x2", "gradient"]
    r.shuffle(pool)
    names = [[], [], [], []]
    for n in pool[:r.randrange(0, 6)]:
        names[r.randrange(4)].append(n)
    tagnames = [sorted(set(r.choice(["inflow", "outflow", "left", "ghost", "t1"]) for _ in range(r.choice([0, 0, 1, 2, 3])))) for _ in range(4)]
    if r.random() < 0.4:
        tagnames = [[], [], [], []]
    time = r.random() < 0.6
    head = "%s %s %d %d %s %d" % (prefix, dr, cycle, time, repr(r.choice([0.0, 1.5, -2.25, r.uniform(0, 1e6), 1e-30])), nfiles)
    return head + " " + " ".join(payload(r, dim, names, tagnames) for _ in range(np))


def case(r, cid, dim, api, np, nfiles):
    ws, keys = [], []
    for k in range(r.choice([1, 1, 1, 2, 3])):
        dr = r.choice(["-", "out", "out", "."])
        prefix = r.choice(["mesh", "run.silo", "a_b"])
        cycle = r.choice([-1, 0, 3, 120])
        nf = nfiles if k == 0 else r.choice([-1] + list(range(1, np + 1)))
        ws.append(write(r, dim, np, prefix, dr, cycle, nf))
    return "%s %d %d %d %s" % (cid, dim, api, len(ws), " ".join(ws))


INV = ["InvExclusive", "InvKept", "InvOpens", "InvClosed", "InvMaster", "InvNodes", "InvZones", "InvBorder", "InvConn", "InvHull",
       "InvFields", "InvTags", "InvTime", "InvGroups"]


def traces(recs):
    """One trace per write whose files no later write of the case replaced."""
    out = []
    n = len(recs[0]["writes"])
    keys = [f["key"] for f in recs[0]["files"]]
    for w in range(n):
        # the last writer of a file name decides what it holds
        stem = lambda k: k
        if keys[w] in keys[w + 1:]:
            continue
        log = []
        for p, rec in enumerate(recs):
            for e in rec["writes"][w]["log"]:
                log.append((int(e["t"]), p, e["k"], os.path.normpath(e["f"])))
        log.sort()
        nf = recs[0]["writes"][w]["nfiles"]
        procs = []
        for rec in recs:
            x = dict(rec["writes"][w])
            x.pop("log")
            procs.append(x)
        out.append({"api": recs[0]["api"], "nfiles": len(recs) if nf < 0 else nf, "procs": procs,
                    "log": [{"p": p, "k": k, "f": f} for _, p, k, f in log], "got": recs[0]["files"][w]})
    return out


def c14():
    ck = Check("C14", "model_checking")
    r = vp.rng("C14")
    exe = driver()
    base = "SPECIFICATION Spec\nCONSTANTS MaxP = %d\nWrites = %d\nRecreate = %s\nEvenGroups = %s\n%s"
    good = "INVARIANT Exclusive\nINVARIANT Complete\nINVARIANT MasterExact\nINVARIANT Cover\nPROPERTY Ends\n"
    t = vp.tlc("SiloModel", base % (6 if THOROUGH else 5, 2, "FALSE", "FALSE", good), ck.work, "protocol", timeout=800)
    if not t.ok:
        raise CheckError("SiloModel fails:\n" + t.log[-3000:])
    ck.add_tlc(t)
    ck.cov["parts"]["protocol"] = {"states": t.distinct, "processes": "1-%d" % (6 if THOROUGH else 5), "files": "1-P", "writes": 2}
    for a, b, want in (("TRUE", "FALSE", "Complete"), ("FALSE", "TRUE", "MasterExact")):
        t = vp.tlc("SiloModel", base % (3, 1, a, b, "INVARIANT %s\n" % want), ck.work, "broken" + want, timeout=200)
        if want not in t.violated:
            raise CheckError("the broken protocol (%s) passes:\n%s" % (want, t.log[-2000:]))
    plans = [(np, nf) for np in (1, 2, 3, 4, 5) for nf in [-1] + list(range(1, np + 1))]
    if THOROUGH:
        plans += [(np, nf) for np in (6, 7, 8) for nf in [-1] + list(range(1, np + 1))]
    byP = {}
    k = 0
    for np, nf in plans:
        for dim in (2, 3):
            for q in range(scale(2)):
                byP.setdefault(np, []).append(case(r, "s%d" % k, dim, (0, 0, 1, 2)[(k + q) % 4], np, nf))
                k += 1
    tl, src = [], []
    for np, lines in sorted(byP.items()):
        root = os.path.join(ck.work, "files%d" % np)
        os.makedirs(root)
        res = vp.run_mpi_cases(exe, lines, np, ck.work, "silo%d" % np, per_case=20.0, args=[root])
        shutil.rmtree(root, ignore_errors=True)
        for l in lines:
            rec = res.get(l.split()[0], {})
            if "crash" in rec:
                ck.violation("writing Silo files of %d processes ends abnormally (%s)" % (np, rec["crash"]), {"np": np, "line": l[:40000]})
            elif isinstance(rec, list):
                for x in traces(rec):
                    tl.append(x)
                    src.append((np, l))
    # api 2 writes no tags
    for x in tl:
        if x["api"] == 2:
            for p in x["procs"]:
                p["tags"] = []
    t, bad = vp.check_cases("SiloTrace", tl, INV, ck.work, "trace", timeout=800)
    ck.add_tlc(t)
    ck.cov["evaluations"] += sum(len(x["procs"]) for x in tl)
    ck.cov["traces_validated_against_impl"] += len(tl)
    ck.cov["parts"]["writes_replayed"] = {"writes": len(tl), "processes_x_files": len(plans), "domains": sum(len(x["procs"]) for x in tl)}
    for i in (0, len(tl) // 2, len(tl) - 1):
        if tl:
            ck.sample({"processes": len(tl[i]["procs"]), "files": tl[i]["nfiles"], "api": tl[i]["api"], "log": tl[i]["log"][:12]})
    seen = set()
    for i, inv in sorted(set(bad)):
        if inv in seen and len(ck.found) > 4:
            continue
        seen.add(inv)
        np, l = src[i]
        ck.violation("%s fails: Silo files of %d processes in %d files (%dD, interface %d)" % (inv, np, tl[i]["nfiles"], tl[i]["procs"][0]["dim"], tl[i]["api"]),
                     {"invariant": inv, "np": np, "line": l[:60000], "trace": tl[i]})
    return ck.finish()
