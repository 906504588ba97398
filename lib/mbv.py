"""Common machinery of the checks: build, TLC runs, trace validation, evidence."""
import atexit, concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MB_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
NPROC = min(8, os.cpu_count() or 4)
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()
_scratch = None

class CheckError(Exception):
    pass

def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)

def scratch():
    """Private scratch directory (tmpfs when there is room), removed at exit."""
    global _scratch
    if _scratch is None:
        base = "/tmp"
        try:
            st = os.statvfs("/dev/shm")
            if st.f_bavail * st.f_frsize > (2 << 30) and os.access("/dev/shm", os.W_OK): base = "/dev/shm"
        except OSError: pass
        _scratch = tempfile.mkdtemp(prefix="mbv.", dir=base)
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

def sub(name):
    d = os.path.join(scratch(), name); os.makedirs(d, exist_ok=True); return d

# ------------------------------------------------------------------ build
DEFS = ["-std=c++17", "-fPIC", "-D__LOCK_FREE__", "-DMB_ENABLE_TRAVERSAL_LIMIT", "-w",
        "-I" + REPO + "/src", "-I" + REPO + "/src/util", "-I" + REPO + "/src/detail", "-I" + VERIF + "/harness"]

def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)

def lib_sources():
    s = []
    for d in ("src", "src/util", "src/detail"):
        s += sorted(glob.glob(os.path.join(REPO, d, "*.cpp")))
    return s

def build(driver, variant="plain", defs=()):
    """Compile /repo's current sources and one driver; returns the binary."""
    out = sub("build-" + variant)
    if variant == "plain":
        cxx = ["g++", "-O1", "-g"]; link = []
    elif variant == "tsancb":   # every memory access calls back into the driver's own runtime
        cxx = ["clang++", "-O1", "-g", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-fno-builtin"]; link = []
    else: raise CheckError(variant)
    objs, jobs = [], []
    for s in lib_sources():
        o = os.path.join(out, os.path.relpath(s, REPO).replace("/", "_") + ".o"); objs.append(o)
        if not os.path.exists(o): jobs.append(cxx + DEFS + list(defs) + ["-c", s, "-o", o])
    drv = os.path.join(VERIF, "harness", driver + ".cpp")
    dobj = os.path.join(out, driver + ".drv.o")
    dcx = ["g++", "-O1", "-g"] if variant == "plain" else ["clang++", "-O1", "-g"]
    extra = []
    head = open(drv).read(2000)
    mm = re.search(r"//\s*LINK:\s*(.*)", head)
    if mm: extra = mm.group(1).split()
    jobs.append(dcx + DEFS + list(defs) + ["-c", drv, "-o", dobj])
    if variant == "tsancb" and "// RT: none" not in head:
        rto = os.path.join(out, "shmrt.rt.o"); extra.append(rto)
        jobs.append(["clang++", "-O2", "-g", "-fno-builtin"] + DEFS + ["-c", os.path.join(VERIF, "harness", "shmrt.cpp"), "-o", rto])
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for r, c in zip(ex.map(lambda c: run(c), jobs), jobs):
            if r.returncode: raise CheckError("build failed: %s\n%s" % (" ".join(c), r.stdout[-3000:]))
    exe = os.path.join(out, driver)
    r = run((["g++"] if variant == "plain" else ["clang++"]) + objs + [dobj] + link + extra + ["-lpthread", "-ljemalloc", "-o", exe])
    if r.returncode: raise CheckError("link failed\n" + r.stdout[-3000:])
    return exe

# ------------------------------------------------------------------ TLC
def tlc(cwd, module, cfg, args=(), timeout=800, heap="3g", workers=1, jvm=()):
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Djava.io.tmpdir=" + sub("jtmp")] + list(jvm) + ["-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-metadir", tempfile.mkdtemp(prefix="tlc", dir=sub("meta")), "-config", cfg] + list(args) + [module]
    try: r = run(cmd, timeout=timeout, cwd=cwd)
    except subprocess.TimeoutExpired: raise CheckError("TLC timeout: %s" % module)
    return r.stdout

def stage(*dirs):
    """A scratch directory holding copies of the spec modules."""
    d = tempfile.mkdtemp(prefix="spec", dir=scratch())
    for x in dirs:
        for f in glob.glob(os.path.join(VERIF, "specs", x, "*.*")): shutil.copy(f, d)
    return d

def model_check(specdir, module, cfg=None, workers=NPROC, timeout=800, must_cover=(), heap="8g", args=()):
    """Exhaustive TLC run; returns (distinct, generated). Raises on an error in the specification."""
    d = stage(specdir) if "/" not in specdir else specdir
    out = tlc(d, module + ".tla", (cfg or module) + ".cfg", ["-coverage", "1"] + list(args), timeout, heap, workers)
    if "No error has been found" not in out:
        raise CheckError("model check of %s failed:\n%s" % (module, out[-3000:]))
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "").replace("  ", " ")) or \
        re.search(r"([\d]+) states generated ([\d]+) distinct states found", out.replace(",", ""))
    cov = {}
    for a, x, y in re.findall(r"<(\w+) line[^>]*>: (\d+):(\d+)", out): cov[a] = max(cov.get(a, 0), int(y))
    for a in must_cover:
        if cov.get(a, 0) == 0: raise CheckError("action %s of %s is never taken: vacuous" % (a, module))
    return int(m.group(2)), int(m.group(1)), cov

# ------------------------------------------------------------------ trace validation
def validate(specs, module, traces, cfg=None, reset='{"e":"reset"}', per_file=None, header=None, timeout=700, heap="3g", consts=None, jvm=()):
    """traces: list of lists of ndjson lines.  Returns (rejected, records) where rejected is a
    list of (trace index, offset of the first record that is not a step of the specification)."""
    if not traces: return [], 0
    base = stage(*([specs] if isinstance(specs, str) else specs))
    total = sum(len(t) + 1 for t in traces)
    nfiles = max(1, min(NPROC, total // 400 + 1)) if per_file is None else max(1, (len(traces) + per_file - 1) // per_file)
    order = sorted(range(len(traces)), key=lambda i: -len(traces[i]))
    groups = [[] for _ in range(nfiles)]; load = [0] * nfiles
    for i in order:
        g = load.index(min(load)); groups[g].append(i); load[g] += len(traces[i]) + 1
    def one(g):
        idx = list(groups[g]); rej = []; rounds = 0; recs = 0
        while idx and rounds < 2:
            d = tempfile.mkdtemp(prefix="tr", dir=scratch())
            for f in os.listdir(base): os.link(os.path.join(base, f), os.path.join(d, f))
            pos = []
            with open(os.path.join(d, "trace.ndjson"), "w") as f:
                for i in idx:
                    f.write(reset + "\n"); pos.append((i, -1))
                    for j, ln in enumerate(traces[i]): f.write(ln + "\n"); pos.append((i, j))
            out = tlc(d, module + ".tla", (cfg or module) + ".cfg", (), timeout, heap, jvm=jvm)
            mm = re.search(r'<<"@D", (\d+), (\d+)>>', out)
            shutil.rmtree(d, ignore_errors=True)
            if not mm: raise CheckError("trace validation of %s failed:\n%s" % (module, out[-3000:]))
            reached, length = int(mm.group(1)), int(mm.group(2))
            if length != len(pos): raise CheckError("trace length mismatch")
            recs += reached
            if reached >= length: break
            i, j = pos[reached]
            rej.append((i, j))
            idx = idx[idx.index(i) + 1:]
            rounds += 1
        return rej, recs
    out, recs = [], 0
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for rej, rc in ex.map(one, range(nfiles)): out += rej; recs += rc
    shutil.rmtree(base, ignore_errors=True)
    return out, recs

# ------------------------------------------------------------------ findings, verdicts, evidence
def known_findings(pid):
    """Lines 'known: property=<id> match=<substring> ...' of known_findings.txt."""
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known:\s+property=(\S+)\s+match=(\S+)\s+(.*)", ln)
            if m and m.group(1) == pid: r.append((m.group(2), m.group(3).strip()))
    return r

def evidence(pid, level, cov):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": TIER, "seed": SEED, "level": level, "coverage": cov, "wall_s": round(time.time() - T0, 2)}, f, indent=1)

def save_replay(pid, name, data):
    d = os.path.join(VERIF, "evidence", "replay"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (pid, name))
    with open(p, "w") as f: json.dump(data, f, indent=1)
    return p

def finish(pid, level, cov, violations, known_seen=()):
    """violations: list of (name, replay data)."""
    cov = dict(cov); cov["violations"] = len(violations)
    evidence(pid, level, cov)
    for k in known_seen: print("KNOWN-FINDING: property=%s %s" % (pid, k), flush=True)
    if violations:
        for nm, data in violations[:5]:
            print("VIOLATION property=%s replay=%s" % (pid, save_replay(pid, nm, data)), flush=True)
        log("done: violation"); sys.exit(1)
    log("done: held"); sys.exit(0)
