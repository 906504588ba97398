"""Lifecycle: programs of specs/life/LifeGen run by lifedrv, experiences validated against LifeTrace."""
import random
from mbv import *

def simulate(num, depth, seed, consts):
    d = stage("life")
    cfg = open(os.path.join(d, "LifeGen.cfg")).read()
    open(os.path.join(d, "LifeGenX.tla"), "w").write("---- MODULE LifeGenX ----\nEXTENDS LifeGen\nWX == <<%s>>\n====\n" % ", ".join(map(str, consts.pop("W"))))
    cfg = cfg.replace("W <- WDef", "W <- WX").replace("Depth = 24", "Depth = %d" % depth)
    for k, v in consts.items(): cfg = re.sub(r"\b%s = [^\n]+" % k, "%s = %s" % (k, v), cfg)
    open(os.path.join(d, "LifeGenX.cfg"), "w").write(cfg)
    out = tlc(d, "LifeGenX.tla", "LifeGenX.cfg", ["-simulate", "num=%d" % (num + num // 4 + 5), "-depth", str(depth * 12), "-seed", str(seed)], timeout=400)
    hs, seen = [], set()
    for l in re.findall(r'^("@H .*")$', out, re.M):
        h = json.loads(json.loads(l)[3:])
        k = json.dumps(h[:-1])     # successors of one state are printed as well
        if k not in seen: seen.add(k); hs.append(h)
    if len(hs) < 0.8 * num: raise CheckError("TLC generated %d of %d programs\n%s" % (len(hs), num, out[-2000:]))
    return hs[:num]

def job(jid, h, **n): return "J %s %s | %s" % (jid, " ".join("%s=%d" % kv for kv in n.items()), ";".join(",".join(map(str, o)) for o in h))

STAT = {}
def drive(exe, jobs, tag, nproc=None, timeout=800):
    d = sub("life-" + tag); os.makedirs(os.path.join(d, "scr"), exist_ok=True)
    jf = os.path.join(d, "jobs"); open(jf, "w").write("\n".join(jobs) + "\n")
    np = nproc or NPROC
    with open(os.path.join(d, "log"), "w") as lf:
        r = subprocess.run([exe, jf, os.path.join(d, "out"), os.path.join(d, "scr"), str(np)], stdout=lf, stderr=lf, timeout=timeout)
    if r.returncode: raise CheckError("driver failed: %d %s" % (r.returncode, open(os.path.join(d, "log"), errors="replace").read()[-1500:]))
    res = []
    for p in range(np):
        for ln in open(os.path.join(d, "out.%d" % p)):
            ln = ln.strip()
            if ln.startswith("@"): res.append((ln[1:], []))
            elif ln.startswith('{"e":"stat"'): STAT["file numbers given out again"] = STAT.get("file numbers given out again", 0) + json.loads(ln)["reused"]
            else: res[-1][1].append(ln)
    shutil.rmtree(d, ignore_errors=True)
    return res

def life_run(pid, groups):
    exe = build("lifedrv", "tsancb")
    log("built")
    cov = {"behaviours_generated": 0, "executions": 0, "deaths inside an operation": 0, "kills": 0, "opens": 0, "opens refused": 0, "races": 0, "copies": 0, "damage": 0, "distinct_traces": 0, "records_validated": 0, "samples": []}
    viol = []
    for gi, g in enumerate(groups):
        seed = SEED * 1000 + gi * 37 + g.get("salt", 0)
        hs = simulate(g["num"], g["depth"], seed, dict(W=g["w"], CfgSet="{%s}" % ", ".join(map(str, g["cfgs"])), Kills=g["kills"], OneOpen="TRUE" if g.get("one") else "FALSE"))
        rnd = random.Random(seed)
        jobs, meta = [], {}
        for hi, h in enumerate(hs):
            for rep in range(g["reps"]):
                hh = h
                if rep: # other places to die
                    hh = []
                    for o in h:
                        o = list(o)
                        ki = {"o": 5, "u": 5, "c": 2, "w": 2, "b": 3, "z": 2}.get(o[0])
                        if ki and o[ki] > 0: o[ki] = 1 + rnd.randrange(rnd.choice(g.get("far", [10, 50, 200, 600])))
                        hh.append(o)
                hh = [x for o in hh for x in ((o, ["g", o[1]], ["n", o[1]]) if o[0] == "o" else (o,))]  # look at once
                jid = "%d.%d" % (hi, rep)
                j = job(jid, hh, nk=3, qd=rnd.randrange(2), ir=rnd.randrange(2), sl=rnd.randrange(2), **({"one": 1} if g.get("one") else {}), **({"bk": rnd.choice(g["bulk"])} if "bulk" in g else {})); jobs.append(j); meta[jid] = j
        res = drive(exe, jobs, "%s%d" % (pid, gi))
        uniq = {}
        for jid, lines in res:
            cov["executions"] += 1
            for ln in lines:
                r = json.loads(ln); e = r["e"]
                if r.get("die"): cov["deaths inside an operation"] += 1
                elif e == "o": cov["opens"] += 1; cov["opens refused"] += r["r"] != 0
                elif e == "k": cov["kills"] += 1
                elif e == "r": cov["races"] += 1
                elif e == "b": cov["copies"] += 1
                elif e == "x": cov["damage"] += 1
            uniq.setdefault("\n".join(lines), jid)
        keys = [k for k in uniq if k]; traces = [k.split("\n") for k in keys]
        log("%s: %d programs, %d executions, %d distinct traces" % (g["name"], len(hs), len(res), len(keys)))
        rej, recs = validate("life", "LifeTrace", traces)
        cov["behaviours_generated"] += len(hs); cov["distinct_traces"] += len(keys); cov["records_validated"] += recs
        if len(cov["samples"]) < 3 and keys: cov["samples"].append({"group": g["name"], "job": meta[uniq[keys[0]]][:300], "records": traces[0][:8]})
        for i, jx in rej[:6]:
            if len(viol) >= 2: break
            jb = meta[uniq[keys[i]]]
            again = False
            for att in range(2):
                r2, _ = validate("life", "LifeTrace", [ls for _, ls in drive(exe, [jb], "re", 1)])
                if r2: again = True; break
            if not again and '"sig":-1' in keys[i]: log("not reproduced:", keys[i][-200:]); continue
            viol.append(("%s-%s" % (g["name"].replace(" ", "_"), uniq[keys[i]]), {"job": jb, "reproduced": again, "rejected_record_index": jx,
                         "rejected_record": traces[i][min(jx, len(traces[i]) - 1)], "trace": traces[i]}))
        log("%s validated: %d records, %d rejections" % (g["name"], recs, len(rej)))
        if viol and not os.environ.get("LIFE_ALL"): break
    cov.update(STAT)
    return cov, viol
