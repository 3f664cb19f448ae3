"""Shared machinery of the checks: seeds, harness runs, TLC runs, evidence, verdicts."""
import os, sys, json, time, subprocess, re, shutil, random, math, hashlib, signal

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import vpbuild
from vpbuild import BUILD, REPO, BuildError

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
THOROUGH = TIER == "thorough"
SPEC = os.path.join(VERIF, "spec")
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

MPIENV = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
              OMPI_MCA_btl="self,vader", OMPI_MCA_btl_vader_single_copy_mechanism="none",
              OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_plm_rsh_agent="false",
              HOME="/root", LC_ALL="C.UTF-8")


def rng(*salt):
    return random.Random(hashlib.sha256(("%d|" % SEED + "|".join(map(str, salt))).encode()).hexdigest())


class Violation(Exception):
    def __init__(self, what, replay=None, key=None):
        Exception.__init__(self, what)
        self.what, self.replay, self.key = what, replay, key


class CheckError(Exception):
    pass


def scratch(pid):
    d = os.path.join(BUILD, "run", pid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def mpirun(n, cmd, cwd, timeout, env=None):
    """Run cmd on n ranks; (rc, stdout+stderr), rc None on time out."""
    e = dict(os.environ, **MPIENV)
    e.pop("LD_LIBRARY_PATH", None)
    if env:
        e.update(env)
    tmp = os.path.join(cwd, "mpitmp")
    os.makedirs(tmp, exist_ok=True)
    e["TMPDIR"] = "/tmp" if len(tmp) > 60 else tmp
    p = subprocess.Popen(["mpirun", "--oversubscribe", "-n", str(n)] + cmd, cwd=cwd, env=e,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGTERM)
            time.sleep(1.0)
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        return None, out.decode("utf-8", "replace")


def read_jsonl(path):
    out = []
    if os.path.exists(path):
        for line in open(path, errors="replace"):
            line = line.strip()
            if line:
                try:
                    out.append(json.loads(line))
                except ValueError:
                    pass
    return out


def run_cases(exe, lines, work, name, per_case=20.0, base=30.0, args=()):
    """Feed `lines` to a harness that writes a 'begin' and an 'end' record per line.

    Returns {id: record or {'crash': why}}.  A case that ends the process (signal,
    exit or time out) is reported as a crash of that case, and the rest still runs."""
    inp, out = os.path.join(work, name + ".in"), os.path.join(work, name + ".out")
    with open(inp, "w") as f:
        f.write("\n".join(lines) + "\n")
    if os.path.exists(out):
        os.unlink(out)
    res, start, n = {}, 0, len(lines)
    ids = [l.split()[0] for l in lines]
    crashes = 0
    while start < n:
        rc, log = mpirun(1, [exe, inp, out, str(start)] + list(args), work, base + min(300.0, per_case * (n - start)))
        recs = read_jsonl(out)
        done = {r["id"] for r in recs if r.get("ev") == "end"}
        for r in recs:
            if r.get("ev") == "end":
                res[r["id"]] = r
        if rc == 0 and all(i in done for i in ids):
            break
        began = [r["id"] for r in recs if r.get("ev") == "begin" and r["id"] not in res]
        if rc == 77 or not began:
            raise CheckError("harness %s failed outside a case (rc %s):\n%s" % (name, rc, log[-3000:]))
        bad = began[-1]
        res[bad] = {"id": bad, "crash": "time out" if rc is None else "rc %s" % rc, "log": log[-2000:]}
        crashes += 1
        start = ids.index(bad) + 1
        if crashes > 8:
            for i in ids[start:]:
                res.setdefault(i, {"id": i, "skipped": True})
            break
    return res


def run_mpi_cases(exe, lines, np, work, name, per_case=10.0, base=30.0, args=()):
    """Like run_cases for a harness on np ranks that writes OUT.<rank>.

    Returns {id: [record per rank] or {'crash': why}}."""
    inp, out = os.path.join(work, name + ".in"), os.path.join(work, name + ".out")
    with open(inp, "w") as f:
        f.write("\n".join(lines) + "\n")
    for r in range(np):
        if os.path.exists("%s.%d" % (out, r)):
            os.unlink("%s.%d" % (out, r))
    res, start, n = {}, 0, len(lines)
    ids = [l.split()[0] for l in lines]
    crashes = 0
    while start < n:
        rc, log = mpirun_watched(np, [exe, inp, out, str(start)] + list(args), work, out, per_case, base)
        recs = [read_jsonl("%s.%d" % (out, r)) for r in range(np)]
        ends = [{x["id"]: x for x in rs if x.get("ev") == "end"} for rs in recs]
        for i in ids[start:]:
            if all(i in e for e in ends):
                res[i] = [e[i] for e in ends]
        if rc == 0 and all(i in res for i in ids[start:]):
            break
        began = [i for i in ids[start:] if any(x.get("ev") == "begin" and x["id"] == i for rs in recs for x in rs) and i not in res]
        if rc == 77 or not began:
            raise CheckError("harness %s failed outside a case (rc %s):\n%s" % (name, rc, log[-3000:]))
        bad = began[0]
        res[bad] = {"id": bad, "crash": "no process makes progress" if rc is None else "rc %s" % rc, "log": log[-2000:]}
        crashes += 1
        start = ids.index(bad) + 1
        if crashes > (8 if rc is not None else 3):
            for i in ids[start:]:
                res.setdefault(i, {"id": i, "skipped": True})
            break
    return res


def mpirun_watched(n, cmd, cwd, out, per_case, base):
    """mpirun that is ended when no rank has written a record for per_case seconds; (rc or None, log)."""
    e = dict(os.environ, **MPIENV)
    e.pop("LD_LIBRARY_PATH", None)
    e["TMPDIR"] = "/tmp"
    logf = open(os.path.join(cwd, "mpirun.log"), "wb")
    p = subprocess.Popen(["mpirun", "--oversubscribe", "-n", str(n)] + cmd, cwd=cwd, env=e,
                         stdout=logf, stderr=subprocess.STDOUT, start_new_session=True)
    def size():
        return sum(os.path.getsize("%s.%d" % (out, r)) for r in range(n) if os.path.exists("%s.%d" % (out, r)))
    last, t, first = size(), time.time(), True
    rc = None
    while True:
        try:
            rc = p.wait(timeout=0.2)
            break
        except subprocess.TimeoutExpired:
            pass
        s = size()
        if s != last:
            last, t, first = s, time.time(), False
        elif time.time() - t > (base if first else per_case):
            try:
                os.killpg(p.pid, signal.SIGTERM)
                time.sleep(1.0)
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            rc = None
            break
    logf.close()
    return rc, open(os.path.join(cwd, "mpirun.log"), "rb").read().decode("utf-8", "replace")


class Tlc:
    """Outcome of one TLC run."""
    def __init__(self, rc, log):
        self.rc, self.log = rc, log
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", log)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = rc == 0 and "Model checking completed. No error has been found" in log
        self.violated = re.findall(r"(?:Invariant|Action property|Temporal property|property) (\w+) is violated", log)
        self.post = "POSTCONDITION" in log and "is violated" in log or bool(re.search(r"[Pp]ostcondition \w+.*(false|violated)", log))
        self.deadlock = "Deadlock reached" in log


def tlc(module, cfg, work, name, workers="auto", env=None, timeout=600, args=(), heap="6g", deadlock=False, jopts=()):
    """Run TLC on spec/<module>.tla with the text `cfg`."""
    os.makedirs(work, exist_ok=True)
    cfgp = os.path.join(work, name + ".cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.pop("LD_LIBRARY_PATH", None)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    meta = os.path.join(work, name + ".meta")
    shutil.rmtree(meta, ignore_errors=True)
    tdir = os.path.join(work, name + ".tmp")
    os.makedirs(tdir, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + tdir] + list(jopts) + \
          ["-cp", JAVA_CP, "tlc2.TLC",
           "-config", cfgp, "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE"] + \
          ([] if deadlock else ["-deadlock"]) + list(args) + [os.path.join(SPEC, module + ".tla")]
    try:
        r = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        rc, log = r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        rc, log = None, (x.stdout or b"").decode("utf-8", "replace") + "\n[tlc timed out]"
    with open(os.path.join(work, name + ".log"), "w") as f:
        f.write(log)
    shutil.rmtree(meta, ignore_errors=True)
    shutil.rmtree(tdir, ignore_errors=True)
    return Tlc(rc, log)


def write_ndjson(path, recs):
    with open(path, "w") as f:
        for r in recs:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")


def check_cases(module, cases, invariants, work, name, timeout=600, workers="auto", heap="8g", extra_cfg="", env=None):
    """Have TLC decide every case; returns (tlc, [(case index, invariant), ...])."""
    path = os.path.join(work, name + ".ndjson")
    write_ndjson(path, cases)
    cfg = "INIT Init\nNEXT Next\n" + "".join("INVARIANT %s\n" % i for i in invariants) + extra_cfg
    t = tlc(module, cfg, work, name, env=dict(env or {}, TRACE=path), timeout=timeout, workers=workers, heap=heap,
            args=["-continue"])
    bad = []
    for m in re.finditer(r"Invariant (\w+) is violated.*?\n(.*?)(?=\n\n\n|\nError:|\n\d+ states generated|\Z)", t.log, re.S):
        c = re.findall(r"/\\ c = (\d+)", m.group(2)) or re.findall(r"\bc = (\d+)", m.group(2))
        if c:
            bad.append((int(c[-1]) - 1, m.group(1)))
    if not t.ok and not bad:
        raise CheckError("TLC did not decide %s: rc %s\n%s" % (name, t.rc, t.log[-3500:]))
    if re.search(r"Error: (?!Invariant|The behavior|The following behavior)", t.log):
        errs = [l for l in t.log.splitlines() if l.startswith("Error:") and not re.match(r"Error: (Invariant|The behavior|The following behavior)", l)]
        raise CheckError("TLC failed on %s: %s\n%s" % (name, errs[:3], t.log[-3500:]))
    want = 2 * len(cases)
    if t.ok and t.distinct < want:
        raise CheckError("TLC visited %d states of %s, expected %d" % (t.distinct, name, want))
    return t, bad


class Check:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 0,
                    "samples": [], "parts": {}}
        self.assume = []
        self.work = scratch(pid)
        self.found = []      # (what, replay dict)
        self.known = load_known(pid)
        self.known_hit = {}

    def add_tlc(self, t):
        self.cov["states"] += t.distinct
        self.cov["transitions"] += t.generated

    def sample(self, x):
        if len(self.cov["samples"]) < 3:
            self.cov["samples"].append(x)

    def violation(self, what, replay, key=None):
        for k in self.known:
            if key is not None and k["key"] == key:
                self.known_hit[key] = k["what"]
                return
        self.found.append((what, replay))

    def finish(self):
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": self.cov, "assumptions": self.assume,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.found)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, w in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, w))
        if self.found:
            d = os.path.join(VERIF, "build", "replay")
            os.makedirs(d, exist_ok=True)
            for n, (what, replay) in enumerate(self.found[:5]):
                p = os.path.join(d, "%s-%d.json" % (self.pid, n))
                with open(p, "w") as f:
                    json.dump({"property": self.pid, "what": what, "replay": replay}, f, indent=1)
                print("  " + what[:600])
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
            return 1
        print("OK property=%s wall=%.1fs states=%d traces=%d" % (self.pid, time.time() - self.t0,
              self.cov["states"], self.cov["traces_validated_against_impl"]))
        return 0


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append({"key": m.group(2), "what": m.group(3)})
    return out
