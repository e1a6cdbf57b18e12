"""Builds what the checks analyse from /repo's current working tree: the IR exporter (irx) and, from
LLVM IR of the real sources with the real build's macros, the fact base (JSON) the rules work on.
Nothing is written inside /repo.  Results are cached by content hash under /verif/.cache (ignored by git),
so a changed source file is always re-read."""
import hashlib, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("REPO_DIR", "/repo")
SRC = os.path.join(REPO, "src")
CLANGXX, CLANG = "clang++-18", "clang-18"
for alt in (("clang++-18", "clang-18"), ("clang++", "clang")):
    if shutil.which(alt[0]):
        CLANGXX, CLANG = alt
        break

def cache_dir():
    d = os.environ.get("VERIF_CACHE") or os.path.join(VERIF, ".cache")
    try:
        os.makedirs(d, exist_ok=True)
        t = os.path.join(d, ".w%d" % os.getpid()); open(t, "w").close(); os.unlink(t)
        return d
    except OSError:
        d = os.path.join(tempfile.gettempdir(), "verif-cache-%d" % os.getuid())
        os.makedirs(d, exist_ok=True)
        return d

class BuildError(Exception):
    pass

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout

def irx():
    src = open(os.path.join(HERE, "irx.cpp"), "rb").read()
    out = os.path.join(cache_dir(), "irx-" + sha(src))
    if not os.path.exists(out):
        flags = run(["llvm-config-18", "--cxxflags"]).split()
        flags = [f for f in flags if not f.startswith("-std") and f != "-fno-exceptions"]
        tmp = out + ".tmp%d" % os.getpid()
        run([CLANGXX, "-O1", "-std=c++17", "-fno-rtti", os.path.join(HERE, "irx.cpp"), "-o", tmp] + flags +
            ["-lLLVM-18", "-L/usr/lib/llvm-18/lib"])
        os.rename(tmp, out)
    return out

PLANNER_DIRS = ["", "heuristics", "heuristics/landmarks", "heuristics/rcHeuristics", "intDataStructures", "sat",
                "search", "search/fringes", "symbolic_search", "translation"]
SKIP = {"hsAddFF-2.cpp", "IntPairHeap-2.cpp"}

def planner_sources():
    res = []
    for d in PLANNER_DIRS:
        p = os.path.join(SRC, d)
        if os.path.isdir(p):
            for f in sorted(os.listdir(p)):
                if f.endswith(".cpp") and f not in SKIP:
                    res.append(os.path.join(d, f))
    return res

def tree_hash(root, exts, skip=()):
    h = hashlib.sha256()
    for dp, dn, fn in os.walk(root):
        dn[:] = sorted(x for x in dn if x not in (".git",) and x not in skip)
        for f in sorted(fn):
            if f.endswith(exts) and f not in ("cmdline.c", "cmdline.h"):
                p = os.path.join(dp, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    return h.hexdigest()[:24]

PLANNER_INC = ["", "search", "symbolic_search", "heuristics", "heuristics/rcHeuristics", "heuristics/landmarks",
               "intDataStructures", "translation", "sat",
               "symbolic_search/cudd-3.0.0/cudd", "symbolic_search/cudd-3.0.0/cplusplus",
               "symbolic_search/cudd-3.0.0", "symbolic_search/cudd-3.0.0/util", "symbolic_search/cudd-3.0.0/mtr",
               "symbolic_search/cudd-3.0.0/epd", "symbolic_search/cudd-3.0.0/st", "symbolic_search/cudd-3.0.0/dddmp"]
IRFLAGS = ["-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-discard-value-names", "-emit-llvm", "-c", "-w",
           "-fno-strict-aliasing", "-DNDEBUG"]

def make_overlay(dst):
    """generated command line parser + configured CUDD header, as the build would produce them"""
    os.makedirs(dst, exist_ok=True)
    shutil.copy(os.path.join(SRC, "options.ggo"), dst)
    try:
        run(["gengetopt", "--include-getopt", "--default-optional", "--unamed-opts", "-i", "options.ggo"], cwd=dst)
    except (BuildError, FileNotFoundError) as e:
        raise BuildError("gengetopt: %s" % e)
    shutil.copy(os.path.join(HERE, "cudd_config.h"), os.path.join(dst, "config.h"))

def compile_all(jobs):
    errs = []
    def one(c):
        try:
            run(c)
        except BuildError as e:
            errs.append(str(e))
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        list(ex.map(one, jobs))
    if errs:
        raise BuildError("\n".join(errs)[:6000])

def planner_facts(known=None):
    """path of the JSON fact base of the planner proper"""
    known = known or os.path.join(HERE, "known_planner.txt")
    tool = irx()
    key = sha(tree_hash(SRC, (".cpp", ".h", ".hh", ".ggo", ".c", ".txt")), open(known, "rb").read(), os.path.basename(tool),
              open(os.path.join(HERE, "build.py"), "rb").read())
    out = os.path.join(cache_dir(), "planner-%s.json" % key)
    if os.path.exists(out):
        return out
    work = tempfile.mkdtemp(prefix="verif-ir-")
    try:
        gen = os.path.join(work, "gen")
        make_overlay(gen)
        jobs, bcs = [], []
        inc = ["-I" + gen] + ["-I" + os.path.join(SRC, i) for i in PLANNER_INC]
        for s in planner_sources():
            bc = os.path.join(work, s.replace("/", "_") + ".bc")
            bcs.append(bc)
            jobs.append([CLANGXX, "-std=c++17", "-DIL_STD", "-DCMAKE_NO_ILP"] + IRFLAGS + inc + [os.path.join(SRC, s), "-o", bc])
        # units whose text, headers and flags were compiled before are taken from the cache
        hk = sha(tree_hash(SRC, (".h", ".hh", ".ggo")), open(os.path.join(HERE, "build.py"), "rb").read(), SRC)
        keep = []
        for s, j, bc in zip(planner_sources(), list(jobs), bcs):
            k = os.path.join(cache_dir(), "bc-%s.bc" % sha(hk, s, open(os.path.join(SRC, s), "rb").read()))
            if os.path.exists(k): shutil.copy(k, bc); jobs.remove(j)
            else: keep.append((bc, k))
        compile_all(jobs)
        for bc, k in keep:
            shutil.copy(bc, k + ".tmp%d" % os.getpid()); os.rename(k + ".tmp%d" % os.getpid(), k)
        env = dict(os.environ, IRX_ROOT=SRC + "/")
        tmp = out + ".tmp%d" % os.getpid()
        run([tool, tmp, known] + bcs, env=env)
        os.rename(tmp, out)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return out

if __name__ == "__main__":
    print(planner_facts(sys.argv[1] if len(sys.argv) > 1 else None))
