"""Crash and concurrency conformance: behaviours of specs/kv replayed with every store logged."""
from kvcheck import *

def drive(exe, hists, configs, tag, timeout=850, nproc=None):
    d = sub("cc-" + tag); jobs = os.path.join(d, "jobs"); os.makedirs(os.path.join(d, "scr"), exist_ok=True)
    with open(jobs, "w") as f:
        f.write("U 2 4\n")
        for c in configs: f.write("C " + c + "\n")
        for h in hists: f.write("H " + ";".join("%s,%d,%d,%d" % tuple(o) for o in h) + "\n")
    np = nproc or NPROC
    r = run([exe, jobs, os.path.join(d, "out"), os.path.join(d, "scr"), str(np)], timeout=timeout)
    if r.returncode: raise CheckError("driver failed: %s" % r.stdout[-2000:])
    uniq = {}
    for p in range(np):
        cur = None
        for ln in open(os.path.join(d, "out.%d" % p)):
            ln = ln.rstrip("\n")
            if ln.startswith("# "):
                if cur: _put(uniq, cur)
                t = ln.split(); cur = [int(t[1]), t[2:], []]
            else: cur[2].append(ln)
        if cur: _put(uniq, cur)
    shutil.rmtree(d, ignore_errors=True)
    return uniq

def _put(uniq, cur):
    k = "\n".join(cur[2])
    if k in uniq: uniq[k][0] += cur[0]; uniq[k][1] = (uniq[k][1] + cur[1])[:4]
    else: uniq[k] = [cur[0], cur[1]]

def cc_run(pid, groups, exe=None):
    exe = exe or build("ccdrv", "tsancb")
    log("built")
    cov = {"behaviours_generated": 0, "executions": 0, "crash points": 0, "lookups": 0, "distinct_traces": 0, "records_validated": 0, "samples": []}
    viol = []
    for gi, g in enumerate(groups):
        hs = g.get("hists") or gen_histories(g["num"], g["depth"], g["pool"], g["weights"], SEED * 1000 + gi * 17 + g.get("salt", 0))
        module, kind = g["module"], g["kind"]
        uniq = drive(exe, hs, g["configs"], "%s%d" % (pid, gi))
        ld = [k for k in uniq if k.startswith('{"e":"logdiff"')]
        unex = sum(uniq[k][0] for k in ld)
        cov["behaviours_not_fully_logged"] = cov.get("behaviours_not_fully_logged", 0) + unex
        for k in ld: log("not fully logged:", k[:200], uniq[k][1][:2]); del uniq[k]
        if unex * 2 > len(hs) * len(g["configs"]): raise CheckError("the store log does not explain the files")
        keys = list(uniq); traces = [k.split("\n") for k in keys]
        nexec = sum(v[0] for v in uniq.values())
        log("%s: %d behaviours x %d configurations, %d %s, %d distinct traces" % (g["name"], len(hs), len(g["configs"]), nexec, kind, len(keys)))
        rej, recs = validate("kv", module, traces)
        cov["behaviours_generated"] += len(hs); cov["executions"] += len(hs) * len(g["configs"]); cov[kind] += nexec; cov["distinct_traces"] += len(keys); cov["records_validated"] += recs
        if len(cov["samples"]) < 3 and keys:
            cov["samples"].append({"group": g["name"], "source": uniq[keys[0]][1][:1], "records": [x[:200] for x in traces[0][:6]]})
        for i, j in sorted(rej, key=lambda r: '"sig":14' in keys[r[0]])[:6]:
            src = uniq[keys[i]][1][0].split(":"); hi, ci = int(src[0]), int(src[1])
            again = None
            if '"sig":14' in keys[i]:
                if viol: continue
                for att in range(2):
                    u2 = drive(exe, [hs[hi]], [g["configs"][ci]], "re", nproc=1)
                    r2, _ = validate("kv", module, [k.split("\n") for k in u2])
                    if r2: again = True; break
            if not again and '"sig":14' in keys[i]: log("not reproduced", src); continue
            viol.append(("%s-%s" % (g["name"].replace(" ", "_"), "-".join(src)), {"behaviour": hs[hi], "configuration": g["configs"][ci], "source": src, "reproduced": again,
                         "rejected_record_index": j, "rejected_record": traces[i][j][:6000], "records_before": [x[:300] for x in traces[i][max(0, j - 6):j]]}))
        log("%s validated: %d records, %d rejections" % (g["name"], recs, len(rej)))
        if viol: break
    return cov, viol
