"""Content-addressed incremental build of /repo's library sources and of the harnesses.

Nothing here trusts time stamps: an object is reused only when the text of its
source, of every header it read last time and of its command line are all what
they were when it was made.  Objects live in /verif/build (git-ignored).
"""
import os, re, subprocess, hashlib, json, sys, glob, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
# Sources that /repo's own CMake configuration does not build here (their
# third-party libraries are absent).
NOT_BUILT = {"TriangleTessellator.cc", "TetgenTessellator.cc", "VoroPP_2d.cc", "VoroPP_3d.cc",
             "BoostOrphanage.cc", "predicates_test.cc"}
DEFS = ["-DLINUX=1", "-DBoost_FOUND=1", "-DNDEBUG"]
OPT = ["-O1", "-g0"]
CFG = dict(POLYTOPE_VERSION_MAJOR="1", POLYTOPE_VERSION_MINOR="0")
ON = {"HAVE_MPI", "HAVE_HDF5", "HAVE_SILO", "HAVE_BOOST", "HAVE_BOOST_VORONOI"}


class BuildError(Exception):
    pass


def sha(path):
    h = hashlib.sha256()
    with open(path, "rb") as f:
        h.update(f.read())
    return h.hexdigest()


def configure(text, extra):
    """What CMake's configure_file does, for the two headers that /repo generates."""
    out = []
    for line in text.splitlines():
        m = re.match(r"\s*#\s*cmakedefine\s+(\w+)(.*)$", line)
        if m:
            out.append("#define %s%s" % (m.group(1), m.group(2)) if m.group(1) in ON
                       else "/* #undef %s */" % m.group(1))
        else:
            out.append(line)
    text = "\n".join(out) + "\n"
    for k, v in extra.items():
        text = text.replace("@%s@" % k, v).replace("${%s}" % k, v)
    return text


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path + ".tmp", "w") as f:
        f.write(text)
    os.replace(path + ".tmp", path)


def generated():
    gen = os.path.join(BUILD, "gen")
    write_if_changed(gen + "/polytope.hh",
                     configure(open(REPO + "/src/polytope.hh.in").read(), CFG))
    write_if_changed(gen + "/polytope_c.h",
                     configure(open(REPO + "/polytope_c/polytope_c.h.in").read(),
                               dict(CFG, C_REAL_TYPE="double", POLYTOPE_REAL="double")))
    return gen


def includes():
    return ["-I/usr/include/hdf5/serial", "-I" + generated(), "-I" + REPO + "/src",
            "-I" + REPO + "/polytope_c", "-I" + VERIF + "/harness"]


def compile_one(src, tag, extra):
    """Compile src if its recorded content differs; return the object's path."""
    cxx = not src.endswith(".c")
    cmd = (["mpic++", "-std=c++14"] if cxx else ["mpicc", "-std=gnu99"]) + ["-fPIC", "-w"] + OPT + DEFS + extra + includes()
    key = hashlib.sha256((src + "|" + " ".join(cmd)).encode()).hexdigest()[:16]
    obj = os.path.join(BUILD, "obj", "%s-%s-%s.o" % (tag, os.path.basename(src).replace(".", "_"), key))
    meta = obj + ".json"
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            deps = json.load(open(meta))
            if all(os.path.exists(p) and sha(p) == h for p, h in deps.items()):
                return obj, False
        except ValueError:
            pass
    if os.path.exists(meta):
        os.unlink(meta)
    dep = obj + ".d"
    tmp = obj + ".tmp%d" % os.getpid()
    env = {k: v for k, v in os.environ.items() if k not in ("OMPI_CC", "OMPI_CXX")}
    r = subprocess.run(cmd + ["-MMD", "-MF", dep, "-c", src, "-o", tmp], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, env=env)
    if r.returncode != 0:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-6000:]))
    names = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split()
    deps = {}
    for n in names:
        p = os.path.abspath(n)
        if p.startswith(REPO + "/") or p.startswith(VERIF + "/"):
            deps[p] = sha(p)
    os.replace(tmp, obj)
    with open(meta, "w") as f:
        json.dump(deps, f)
    return obj, True


def lib_sources(c_api=False):
    s = [p for p in sorted(glob.glob(REPO + "/src/*.cc")) if os.path.basename(p) not in NOT_BUILT]
    if c_api:
        # polytope_read_silo.cc needs SiloReader, which the library does not build.
        s += [p for p in sorted(glob.glob(REPO + "/polytope_c/*.cc")) if os.path.basename(p) != "polytope_read_silo.cc"]
    return s


def build(name, sources, c_api=False, silo=True, extra=(), only=None, libs=()):
    """Build harness `name` from its own sources and the library's."""
    extra = list(extra)
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        generated()
        srcs = lib_sources(c_api)
        if only is not None:
            srcs = [s for s in srcs if os.path.basename(s) in only]
        jobs = [(s, "lib", extra) for s in srcs] + [(os.path.join(VERIF, "harness", s), "h", extra) for s in sources]
        # longest first
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            objs = list(ex.map(lambda j: compile_one(*j), jobs))
        exe = os.path.join(BUILD, "bin", name)
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        stamp = hashlib.sha256(" ".join(o + sha(o) for o, _ in objs).encode()).hexdigest()
        if not (os.path.exists(exe) and os.path.exists(exe + ".stamp") and open(exe + ".stamp").read() == stamp):
            env = {k: v for k, v in os.environ.items() if k not in ("OMPI_CC", "OMPI_CXX")}
            r = subprocess.run(["mpic++"] + extra + ["-o", exe + ".tmp"] + [o for o, _ in objs] + list(libs) +
                               (["-lsiloh5", "-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lz", "-lm"] if silo else []),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
            if r.returncode != 0:
                raise BuildError("linking %s failed:\n%s" % (name, r.stdout[-6000:]))
            os.replace(exe + ".tmp", exe)
            with open(exe + ".stamp", "w") as f:
                f.write(stamp)
        return exe
    finally:
        lock.close()
