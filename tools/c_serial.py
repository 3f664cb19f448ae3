"""C12: serialization buffers, as queues of values."""
import json, re, struct
import vp, vpbuild
from vp import Check, CheckError, THOROUGH
from c_tess import scale

U64 = (1 << 64) - 1


def driver():
    return vpbuild.build("serial", ["serial.cc"])


F64 = [0x0, 0x8000000000000000, 0x1, 0x800fffffffffffff, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000001, 0x7ff0000000000001,
       0xfff8dead0000beef, 0x3ff0000000000000, 0x3ff0000000000001, 0x3fb999999999999a, 0x7fefffffffffffff, 0x0010000000000000]


def f64(r):
    k = r.randrange(3)
    if k == 0:
        return "%x" % r.choice(F64)
    if k == 1:
        return "%x" % struct.unpack("<Q", struct.pack("<d", r.uniform(-1, 1) * 10 ** r.randrange(-12, 12)))[0]
    return "%x" % r.getrandbits(64)


def num(r, nbits):
    k = r.randrange(3)
    if k == 0:
        return "%x" % r.choice([0, 1, (1 << nbits) - 1, 1 << (nbits - 1), (1 << (nbits - 1)) - 1, 0x0a, 0x80 % (1 << nbits)])
    return "%x" % r.getrandbits(nbits if k == 1 else r.randrange(1, nbits + 1))


def vec(item):
    def f(r, big=False):
        if big:
            return "*%d:%d" % (r.choice([256, 1000, 32768, 65535, 65536, 70001]), r.getrandbits(40))
        n = r.choice([0, 0, 1, 1, 2, 3, 5, 9])
        return " ".join([str(n)] + [item(r) for _ in range(n)])
    return f


def cat(*fs):
    return lambda r: " ".join(f(r) for f in fs)


u8, u32, u64 = (lambda r: num(r, 8)), (lambda r: num(r, 32)), (lambda r: num(r, 64))
vi = vec(u32)
P2 = lambda c: cat(c, c, u32)
P3 = lambda c: cat(c, c, c, u32)
vvi, vvvi = vec(vec(u32)), vec(vec(vec(u32)))
plc = cat(vvi, vvvi)
rplc = cat(vvi, vvvi, vec(f64))
# class -> kinds: fixed width numbers, points, flat sequences, nested sequences, outlines
CLASSES = {
    1: {"char": u8, "i32": u32, "u32": u32, "i64": u64, "u64": u64, "f64": f64, "f32": u32},
    2: {"p2d": P2(f64), "p2i": P2(u32), "p2l": P2(u64), "p2u": P2(u64), "p3d": P3(f64), "p3i": P3(u32), "p3u": P3(u64), "seg": cat(P2(u32), P2(u32))},
    3: {"vc": vec(u8), "vi": vi, "vu": vi, "vd": vec(f64), "vl": vec(u64), "vp2d": vec(P2(f64)), "vp2i": vec(P2(u32)), "vp3d": vec(P3(f64))},
    4: {"vvi": vvi, "vvu": vvi, "vvd": vec(vec(f64)), "vvvi": vvvi, "vvvd": vec(vec(vec(f64))), "vvvvi": vec(vvvi), "vvp2d": vec(vec(P2(f64)))},
    5: {"plc2": plc, "plc3": plc, "rplc2": rplc, "rplc3": rplc, "rplc2i": cat(vvi, vvvi, vi), "vrplc2": vec(rplc), "vplc2": vec(plc)},
}
# CoordHash of Segment and the size of its coordinates are the library's own.


def value(r, k, big=False):
    kind = r.choice(sorted(CLASSES[k]))
    if big and k in (3, 4):
        return "w %s *%d:%d" % (kind, r.choice([255, 256, 257, 1000, 32768, 65535, 65536, 70001]), r.getrandbits(40))
    if big and k == 5 and kind in ("rplc2", "rplc3"):
        return "w %s %s *%d:%d" % (kind, plc(r), r.choice([255, 256, 65536, 131072]), r.getrandbits(40))
    return "w %s %s" % (kind, CLASSES[k][kind](r))


def c12():
    ck = Check("C12", "model_checking")
    r = vp.rng("C12")
    exe = driver()
    base = "INIT Init\nNEXT Next\nCONSTANTS Classes = {1, 2, 3, 4, 5}\nGarbage = {0, 3}\nMaxWrites = %d\nDepth = %d\nBroken = %s\nINVARIANT %s\n"
    t = vp.tlc("SerialModel", base % (3, 2, "FALSE", "InvContiguous\nINVARIANT Emit"), ck.work, "sessions", timeout=300)
    if not t.ok:
        raise CheckError("SerialModel fails:\n" + t.log[-3000:])
    ck.add_tlc(t)
    hs = sorted((json.loads(json.loads('"' + m + '"')) for m in re.findall(r'"HIST (.*)"', t.log)), key=json.dumps)
    t1 = vp.tlc("SerialModel", (base % (0, 2, "FALSE", "RoundTrip")).replace("{0, 3}", "{0}"), ck.work, "encoding", timeout=300)
    if not t1.ok:
        raise CheckError("the encoding of SerialModel does not round-trip:\n" + t1.log[-3000:])
    t2 = vp.tlc("SerialModel", (base % (0, 2, "TRUE", "RoundTrip")).replace("{0, 3}", "{0}"), ck.work, "broken", timeout=300)
    if "RoundTrip" not in t2.violated and not re.search("RoundTrip|evaluat", t2.log):
        raise CheckError("the broken encoding passes")
    ck.cov["parts"]["sessions_model"] = {"states": t.distinct, "sessions": len(hs)}
    lines, info = [], {}
    def add(cid, hist, big=0.0):
        p = hist[0][1]
        if p:
            p = r.choice([1, 2, 3, 4, 7, 8, 13, 1000])
        ops = ["r" if o == "r" else value(r, k, r.random() < big) for o, k in hist[1:]]
        l = "%s %d %d %s" % (cid, p, len(ops), " ".join(ops))
        lines.append(l)
        info[cid] = l
    for k, h in enumerate(hs):
        add("h%d" % k, h)
    for k in range(scale(120)):                # longer sessions
        h, w, q = [["p", r.choice([0, 3])]], 0, 0
        for _ in range(r.randrange(8, 40)):
            if q and r.random() < 0.45:
                h.append(["r", 0]); q -= 1
            else:
                h.append(["w", r.randrange(1, 6)]); q += 1
        h += [["r", 0]] * q
        add("l%d" % k, h)
    for k in range(scale(60)):                 # long values
        h = [["p", 0]]
        for _ in range(3):
            h.append(["w", r.choice([3, 3, 4, 5, 1])])
        h += [["r", 0]] * 3
        add("b%d" % k, h, 0.8)
    for k, cls in enumerate(sorted(CLASSES)):  # every kind, twice in a row
        for kind in sorted(CLASSES[cls]):
            for n in range(scale(4)):
                v = "w %s %s" % (kind, CLASSES[cls][kind](r))
                v2 = "w %s %s" % (kind, CLASSES[cls][kind](r))
                cid = "k-%s-%d" % (kind, n)
                lines.append("%s %d 4 %s %s r r" % (cid, n, v, v2))
                info[cid] = lines[-1]
    res = vp.run_cases(exe, lines, ck.work, "serial", per_case=2.0, base=60.0)
    tl, ids = [], []
    for cid, l in info.items():
        rec = res.get(cid, {})
        if "crash" in rec:
            ck.violation("a session of writes and reads ends abnormally (%s): %s" % (rec["crash"], l[:300]), {"line": l})
        elif "ops" in rec:
            tl.append({"prefix": rec["prefix"], "ops": rec["ops"]})
            ids.append(l)
    inv = ["InvAllowed", "InvAppends", "InvKept", "InvValue", "InvConsumes", "InvContiguous"]
    t, bad = vp.check_cases("SerialTrace", tl, inv, ck.work, "trace", timeout=800)
    ck.add_tlc(t)
    ck.cov["evaluations"] += sum(len(x["ops"]) for x in tl)
    ck.cov["traces_validated_against_impl"] += len(tl)
    ck.cov["parts"]["sessions_replayed"] = {"generated_by_TLC": len(hs), "others": len(tl) - len(hs), "kinds": sum(len(v) for v in CLASSES.values())}
    for k in (0, len(tl) // 2, len(tl) - 1):
        ck.sample({"session": ids[k][:300]})
    for k, i in sorted(set(bad)):
        ck.violation("%s fails in the session %s" % (i, ids[k][:500]), {"invariant": i, "line": ids[k][:20000], "trace": tl[k]})
    return ck.finish()
