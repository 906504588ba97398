"""Async updates: behaviours of specs/queue run by the scheduled driver qdrv, traces validated against AsyncTrace."""
import random
from mbv import *

def simulate(module, num, depth, seed, consts):
    d = stage("queue")
    x = module + "X"
    open(os.path.join(d, x + ".tla"), "w").write("---- MODULE %s ----\nEXTENDS %s\n%s\n====\n" % (x, module, "\n".join("%s == %s" % (k, v) for k, v in consts.items() if k == "WX")))
    cfg = open(os.path.join(d, module + ".cfg")).read()
    for k, v in consts.items():
        if k == "WX": cfg = cfg.replace("W <- WDef", "W <- WX")
        else: cfg = re.sub(r"\b%s = \S+" % k if k != "Prod" else r"Prod = \{[^}]*\}", "%s = %s" % (k, v), cfg)
    cfg = re.sub(r"Depth = \d+", "Depth = %d" % depth, cfg)
    open(os.path.join(d, x + ".cfg"), "w").write(cfg)
    out = tlc(d, x + ".tla", x + ".cfg", ["-simulate", "num=%d" % num, "-depth", str(depth + 3), "-seed", str(seed)], timeout=300)
    hs = [json.loads(json.loads(l)[3:]) for l in re.findall(r'^("@H .*")$', out, re.M)]
    if len(hs) < 0.8 * num: raise CheckError("TLC generated %d of %d behaviours of %s\n%s" % (len(hs), num, module, out[-2000:]))
    return hs

def job(jid, hist, sched, **n):
    ops = [h for h in hist if h[0] != 0]
    return "J %s %s | %s | %s" % (jid, " ".join("%s=%d" % kv for kv in n.items()), ";".join("%d,%s,%d,%d" % tuple(o) for o in ops), " ".join(map(str, sched)))

LOGS = {}
def drive(exe, jobs, tag, nproc=None, timeout=800):
    d = sub("q-" + tag); os.makedirs(os.path.join(d, "scr"), exist_ok=True)
    jf = os.path.join(d, "jobs"); open(jf, "w").write("\n".join(jobs) + "\n")
    np = nproc or NPROC
    with open(os.path.join(d, "log"), "w") as lf:
        r = subprocess.run([exe, jf, os.path.join(d, "out"), os.path.join(d, "scr"), str(np)], stdout=lf, stderr=lf, timeout=timeout)
    if r.returncode: raise CheckError("driver failed: %d %s" % (r.returncode, open(os.path.join(d, "log")).read()[-1500:]))
    lt = open(os.path.join(d, "log"), errors="replace").read()
    LOGS["collections finished with updates"] = LOGS.get("collections finished with updates", 0) + len(re.findall(r"traversing the rc tree [1-9]", lt))
    LOGS["collections recovered after a death"] = LOGS.get("collections recovered after a death", 0) + lt.count("recovering the rc tree")
    LOGS["slots given up"] = LOGS.get("slots given up", 0) + lt.count("was abandoned")
    res = []
    for p in range(np):
        cur = []
        for ln in open(os.path.join(d, "out.%d" % p)):
            if ln.startswith("# "):
                t = ln.split(); res.append((cur, int(t[2]), int(t[4]))); cur = []
            else: cur.append(json.loads(ln))
    shutil.rmtree(d, ignore_errors=True)
    return res

def cook(recs, wdeaths):
    """outcomes are attached to the calls"""
    out, last, src = [], {}, ""
    for r in recs:
        e = r["e"]
        if e == "r":
            c = last.pop(r["p"]); c["out"] = 1 if r["r"] == 0 else 0; continue
        if e == "c": r["out"] = 2; last[r["p"]] = r
        if e == "new": src = r.pop("src")
        if e == "end": r["d"] = 1 if wdeaths else 0
        out.append(r)
    return src, [json.dumps(r, separators=(",", ":")) for r in out]

def q_run(pid, groups):
    exe = build("qdrv", "tsancb")
    log("built")
    cov = {"behaviours_generated": 0, "executions": 0, "scheduling points": 0, "submitter deaths": 0, "writer deaths": 0, "updates accepted": 0, "updates refused": 0,
           "collections requested": 0, "distinct_traces": 0, "records_validated": 0, "samples": []}
    viol = []
    for gi, g in enumerate(groups):
        seed = SEED * 1000 + gi * 31 + g.get("salt", 0)
        hs = simulate("AsyncGen", g["num"], g["depth"], seed, {"NP": 4, "NK": g.get("keys", 8), "WX": "<<%s>>" % ", ".join(map(str, g["w"]))})
        ss = simulate("ShmQueueGen", max(1, g["num"] // 2), 160, seed + 7, {"Size": g["q"][0], "MaxSub": 8}) if 1 in g["modes"] else []
        rnd = random.Random(seed)
        jobs, meta = [], {}
        for hi, h in enumerate(hs):
            for rep in range(g["reps"]):
                mode = g["modes"][rep % len(g["modes"])]
                n = dict(mode=mode, seed=rnd.randrange(1 << 30), np=max([x[0] for x in h] + [1]), q=rnd.choice(g["q"]), init=rnd.choice([0, rnd.randrange(512) & ~1]))
                if rnd.random() < g.get("loc", 0): n["loc"] = 1 + rnd.randrange(n["np"])
                if mode != 0 and rnd.random() < g.get("kill", 0): n["kill"] = 1
                if mode != 0 and rnd.random() < g.get("wkill", 0): n["wkill"] = rnd.choice([30, 120, 400])
                # a submitter that dies while it owns a slot takes the slot with it: there must be one left
                n["q"] = max(n["q"], 1 + (n["np"] if mode == 1 else ("kill" in n) + ("loc" in n and n["loc"] > 0)))
                if rnd.random() < 0.2: n["close"] = 1
                n.update(g.get("cfg", {}))
                sched = [x[0] for x in h] if mode == 0 else (ss[rnd.randrange(len(ss))] if mode == 1 else [])
                if mode == 1: sched = [x for x in sched if x in (0, 100, 50) or x % 50 <= n["np"]]
                jid = "%d.%d" % (hi, rep)
                j = job(jid, h, sched, **n); jobs.append(j); meta[jid] = j
        res = drive(exe, jobs, "%s%d" % (pid, gi))
        uniq = {}
        for recs, steps, wd in res:
            src, lines = cook(recs, wd)
            cov["executions"] += 1; cov["scheduling points"] += steps; cov["writer deaths"] += wd
            for r in recs:
                if r["e"] == "die": cov["submitter deaths"] += 1
                elif r["e"] == "c":
                    if r["op"] == "R": cov["collections requested"] += 1
                    elif r["out"] == 1: cov["updates accepted"] += 1
                    elif r["out"] == 0: cov["updates refused"] += 1
            uniq.setdefault("\n".join(lines), src)
        keys = list(uniq); traces = [k.split("\n") for k in keys]
        log("%s: %d behaviours, %d executions, %d distinct traces" % (g["name"], len(hs), len(res), len(keys)))
        rej, recs = validate("queue", "AsyncTrace", traces)
        cov["behaviours_generated"] += len(hs); cov["distinct_traces"] += len(keys); cov["records_validated"] += recs
        if len(cov["samples"]) < 3 and keys: cov["samples"].append({"group": g["name"], "job": meta[uniq[keys[0]]][:300], "records": traces[0][:8]})
        for i, j in rej[:6]:
            if len(viol) >= 2: break
            jb = meta[uniq[keys[i]]]
            again = False
            for att in range(2):
                r2, _ = validate("queue", "AsyncTrace", [cook(a, w)[1] for a, _, w in drive(exe, [jb], "re", 1)])
                if r2: again = True; break
            # a hang may come from a slow machine: only what happens again counts
            if not again and '"bad"' in keys[i]: log("not reproduced:", keys[i][-200:]); continue
            viol.append(("%s-%s" % (g["name"].replace(" ", "_"), uniq[keys[i]]), {"job": jb, "reproduced": again, "rejected_record_index": j,
                         "rejected_record": traces[i][min(j, len(traces[i]) - 1)], "trace": traces[i]}))
        log("%s validated: %d records, %d rejections" % (g["name"], recs, len(rej)))
        if viol: break
    cov.update(LOGS)
    return cov, viol
