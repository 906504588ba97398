"""Replay of behaviours of specs/kv in the real library and validation of the recorded traces."""
import json, os, re, subprocess, random
from mbv import *

def hexs(*syms): return ",".join(s.hex() if isinstance(s, bytes) else s.encode().hex() for s in syms)

# order- and prefix-preserving substitutions for the two symbols
SUBST = {
    "one":   hexs(b"a", b"b"),
    "bytes": hexs(b"\x7f", b"\x80"),
    "zero":  hexs(b"\x00\x00", b"\xff\xff"),
    "c2":    hexs(b"xa", b"xb"),
    "c4":    hexs(b"wxya", b"wxyc"),
    "c5":    hexs(b"vwxya", b"vwxyb"),
    "c6":    hexs(b"uvwxya", b"uvwxyb"),
    "c7":    hexs(b"tuvwxya", b"tuvwxyb"),
    "uneq":  hexs(b"m", b"n" * 6),
    "uneq2": hexs(b"mmmmmmmma", b"mn"),
    "mid":   hexs(b"q" * 20 + b"a" + b"r" * 3, b"q" * 20 + b"b"),
    "max":   hexs(b"L" * 63 + b"a", b"L" * 63 + b"b"),
    "max2":  hexs(b"a" + b"L" * 63, b"b" + b"K" * 63),
    "max3":  hexs(b"\x01" * 40, b"\xfd" + b"Z" * 63),
    "hi":    hexs(b"\xf0\x00", b"\xf0\xff"),
    "utf":   hexs("é", "ü"),
}
SIZES = {"s": "8,16,24", "eq": "12,12,12", "one": "1,1,1", "mix": "1,40,900", "big": "5000,8187,16000", "max": "32767,20000,8192", "edge": "27,28,29", "wide": "4,2000,32767"}

def gen_histories(num, depth, pool, weights, seed, tag=""):
    """Behaviours of KVGen, drawn by TLC."""
    d = stage("kv")
    open(os.path.join(d, "KVGenX.tla"), "w").write(
        "---- MODULE KVGenX ----\nEXTENDS KVGen\nWX == <<%s>>\n====\n" % ", ".join(map(str, weights)))
    cfg = open(os.path.join(d, "KVGen.cfg")).read()
    cfg = re.sub(r"Depth = \d+ PoolMax = \d+", "Depth = %d PoolMax = %d" % (depth, pool), cfg).replace("W <- WDef", "W <- WX")
    open(os.path.join(d, "KVGenX.cfg"), "w").write(cfg)
    out = tlc(d, "KVGenX.tla", "KVGenX.cfg", ["-simulate", "num=%d" % num, "-depth", str(depth + 3), "-seed", str(seed)], timeout=300)
    hs = [json.loads(json.loads(x)[3:]) for x in re.findall(r'^("@H .*")$', out, re.M)]
    if len(hs) < 0.8 * num: raise CheckError("TLC generated %d of %d behaviours\n%s" % (len(hs), num, out[-2000:]))
    return hs

def cfgline(name, sym="one", sz="s", **kw):
    s = "name=%s sym=%s sz=%s" % (name, SUBST[sym], SIZES[sz])
    for k, v in kw.items(): s += " %s=%s" % (k, v)
    return s

def replay(exe, hists, configs, tag):
    d = sub("kv-" + tag)
    jobs = os.path.join(d, "jobs")
    with open(jobs, "w") as f:
        f.write("U 2 4\n")
        for c in configs: f.write("C " + c + "\n")
        for h in hists: f.write("H " + ";".join("%s,%d,%d,%d" % tuple(o) for o in h) + "\n")
    r = run([exe, jobs, os.path.join(d, "out"), os.path.join(d, "scr"), str(NPROC)] if os.makedirs(os.path.join(d, "scr"), exist_ok=True) is None else [], timeout=800)
    if r.returncode: raise CheckError("driver failed: %s" % r.stdout[-2000:])
    uniq = {}
    for p in range(NPROC):
        cur = None
        for ln in open(os.path.join(d, "out.%d" % p)):
            ln = ln.rstrip("\n")
            if ln.startswith("# "):
                if cur: _put(uniq, cur)
                t = ln.split(); cur = [int(t[1]), [tuple(map(int, x.split(":"))) for x in t[2:]], []]
            else: cur[2].append(ln)
        if cur: _put(uniq, cur)
    shutil.rmtree(d, ignore_errors=True)
    return uniq

def _put(uniq, cur):
    k = "\n".join(cur[2])
    if k in uniq: uniq[k][0] += cur[0]; uniq[k][1] = (uniq[k][1] + cur[1])[:4]
    else: uniq[k] = [cur[0], cur[1]]

def kv_run(pid, groups, exe=None, match_known=()):
    """groups: list of dict(name, num, depth, pool, weights, configs).  Returns coverage, violations."""
    exe = exe or build("kvdrv")
    log("built")
    cov = {"behaviours_generated": 0, "executions": 0, "distinct_traces": 0, "records_validated": 0, "samples": []}
    viol = []
    for gi, g in enumerate(groups):
        hs = g.get("hists") or gen_histories(g["num"], g["depth"], g["pool"], g["weights"], SEED * 1000 + gi * 17 + g.get("salt", 0))
        uniq = replay(exe, hs, g["configs"], "%s%d" % (pid, gi))
        keys = list(uniq); traces = [k.split("\n") for k in keys]
        nexec = sum(v[0] for v in uniq.values())
        log("%s: %d behaviours x %d configurations = %d executions, %d distinct traces" % (g["name"], len(hs), len(g["configs"]), nexec, len(keys)))
        rej, recs = validate("kv", "KVTrace", traces)
        cov["behaviours_generated"] += len(hs); cov["executions"] += nexec; cov["distinct_traces"] += len(keys); cov["records_validated"] += recs
        if len(cov["samples"]) < 3 and keys:
            cov["samples"].append({"group": g["name"], "behaviour": hs[uniq[keys[0]][1][0][0]][:12], "configuration": g["configs"][uniq[keys[0]][1][0][1]], "first_record": traces[0][0][:300]})
        # confirm by replaying again on its own
        for i, j in rej[:6]:
            if len(viol) >= 2: break
            hi, ci = uniq[keys[i]][1][0]
            again = False
            for att in range(3):
                u2 = replay(exe, [hs[hi]], [g["configs"][ci]], "re")
                r2, _ = validate("kv", "KVTrace", [k.split("\n") for k in u2])
                if r2: again = True; break
            if not again: log("rejection not reproduced", hi, ci); continue
            viol.append(("%s-%d-%d" % (g["name"], hi, ci), {"behaviour": hs[hi], "configuration": g["configs"][ci],
                         "rejected_record_index": j, "rejected_record": traces[i][j][:6000], "records_before": [x[:300] for x in traces[i][max(0, j - 3):j]]}))
        log("%s validated: %d records, %d rejections" % (g["name"], recs, len(rej)))
        if viol: break
    return cov, viol
