"""Storage and eviction: programs of specs/store/StoreGen run by stdrv, validated against StoreTrace."""
import random
from mbv import *
T = TIER == "thorough"
ST_PIDS = ["P14", "P24"]

def simulate(num, depth, seed, W, NK, EPB, sizes, maxbump):
    d = stage("store")
    cfg = open(os.path.join(d, "StoreGen.cfg")).read()
    open(os.path.join(d, "StoreGenX.tla"), "w").write("---- MODULE StoreGenX ----\nEXTENDS StoreGen\nWX == <<%s>>\n====\n" % ", ".join(map(str, W)))
    cfg = cfg.replace("W <- WDef", "W <- WX").replace("Depth = 40", "Depth = %d" % depth).replace("NK = 40", "NK = %d" % NK).replace("EPB = 8", "EPB = %d" % EPB)
    cfg = re.sub("SizeSet = .*", "SizeSet = {%s}" % ", ".join(map(str, sizes)), cfg).replace("MaxBump = 2000", "MaxBump = %d" % maxbump)
    open(os.path.join(d, "StoreGenX.cfg"), "w").write(cfg)
    out = tlc(d, "StoreGenX.tla", "StoreGenX.cfg", ["-simulate", "num=%d" % (num + num // 3 + 5), "-depth", str(depth * 3), "-seed", str(seed)], timeout=400)
    hs, seen = [], set()
    for l in re.findall(r'^("@H .*")$', out, re.M):
        h = json.loads(json.loads(l)[3:]); k = json.dumps(h[:-2])
        if k not in seen: seen.add(k); hs.append(h)
    if len(hs) < 0.8 * num: raise CheckError("TLC generated %d of %d programs\n%s" % (len(hs), num, out[-2000:]))
    return hs[:num]

def drive(exe, jobs, tag, nproc=None, timeout=800):
    d = sub("store-" + tag); os.makedirs(os.path.join(d, "scr"), exist_ok=True)
    jf = os.path.join(d, "jobs"); open(jf, "w").write("\n".join(jobs) + "\n")
    np = nproc or NPROC
    with open(os.path.join(d, "log"), "w") as lf:
        r = subprocess.run([exe, jf, os.path.join(d, "out"), os.path.join(d, "scr"), str(np)], stdout=lf, stderr=lf, timeout=timeout)
    if r.returncode: raise CheckError("driver failed: %d" % r.returncode)
    res = []
    for p in range(np):
        for ln in open(os.path.join(d, "out.%d" % p), errors="replace"):
            ln = ln.strip()
            if ln.startswith("@"): res.append((ln[1:], []))
            elif ln:
                try: json.loads(ln)
                except ValueError: continue      # cut off by a death
                res[-1][1].append(ln)
    shutil.rmtree(d, ignore_errors=True)
    return res

def G(name, num, depth, w, nk, epb, sizes=(0, 1, 2, 3, 4, 5, 6), maxbump=2000, cap=(0,), ks=(0, 1, 2, 3, 4)):
    return dict(name=name, num=num * (8 if T else 1), depth=depth, w=w, nk=nk, epb=epb, sizes=sizes, maxbump=maxbump, cap=cap, ks=ks)
#       add ow remove bump clear reopen collect evict cycle
def groups(pid):
    if pid == "P14":
        w = (34, 20, 14, 10, 1, 4, 3, 16, 0)
        return [G("few keys", 220, 60, w, 30, 8, (0, 2, 4), 400), G("many keys", 30, 60, w, 300, 8, (1, 3), 3000), G("larger buckets", 60, 60, w, 120, 50, (1, 5, 6), 5000),
                G("bucket numbers wrap around", 24, 40, (30, 20, 10, 14, 1, 3, 2, 20, 0), 24, 8, (0, 4), 330000)]
    w = (30, 16, 26, 0, 2, 4, 4, 0, 0)
    return [G("histories", 160, 50, w, 40, 8), G("cycles", 90, 10, (40, 20, 24, 0, 1, 3, 3, 0, 20), 60, 8),
            G("many keys", 24, 40, w, 320, 500, (0, 1, 2, 3, 4)), G("many keys of one size", 12, 40, w, 500, 500, (3, 4)), G("large values, small memory caps", 40, 40, w, 150, 500, (2, 5, 6, 7), cap=(0, 4))]

def part(pid):
    cov = {"behaviours_generated": 0, "executions": 0, "distinct_traces": 0, "records_validated": 0, "evictions": 0, "evictions that removed entries": 0, "cycles": 0, "extent maps": 0, "samples": []}
    viol = []
    st, tr, _ = model_check("store", "StoreMC" if pid == "P14" else "AllocMC", ("StoreMC" if pid == "P14" else "AllocMC") + ("L" if T else ""), timeout=1500)
    cov["states"] = st; cov["transitions"] = tr
    log("specification: %d states" % st)
    exe = build("stdrv")
    for gi, g in enumerate(groups(pid)):
        seed = SEED * 1000 + gi * 37 + 5
        hs = simulate(g["num"], g["depth"], seed, g["w"], g["nk"], g["epb"], g["sizes"], g["maxbump"])
        rnd = random.Random(seed)
        jobs, meta = [], {}
        for hi, h in enumerate(hs):
            jid = str(hi)
            j = "J %s nk=%d epb=%d ks=%d cap=%d | %s" % (jid, g["nk"], g["epb"], rnd.choice(g["ks"]), rnd.choice(g["cap"]), ";".join(",".join(map(str, o)) for o in h))
            jobs.append(j); meta[jid] = j
        res = drive(exe, jobs, "%s%d" % (pid, gi))
        uniq = {}
        for jid, lines in res:
            cov["executions"] += 1
            uniq.setdefault("\n".join(lines), jid)
        for t in uniq:
            cov["evictions"] += t.count('"e":"v"'); cov["evictions that removed entries"] += t.count('"rm":1'); cov["cycles"] += t.count('"e":"y"'); cov["extent maps"] += t.count('"full":1')
        keys = list(uniq); traces = [k.split("\n") for k in keys]
        log("%s: %d programs, %d distinct traces" % (g["name"], len(hs), len(keys)))
        rej, recs = validate("store", "StoreTrace", traces)
        cov["behaviours_generated"] += len(hs); cov["distinct_traces"] += len(keys); cov["records_validated"] += recs
        if len(cov["samples"]) < 3 and keys: cov["samples"].append({"group": g["name"], "job": meta[uniq[keys[0]]][:300], "records": [x[:300] for x in traces[0][:6]]})
        for i, jx in rej[:6]:
            viol.append(("%s-%s" % (g["name"].replace(" ", "_").replace(",", ""), uniq[keys[i]]), {"job": meta[uniq[keys[i]]], "rejected_record_index": jx,
                         "rejected_record": traces[i][min(jx, len(traces[i]) - 1)], "trace": traces[i][max(0, jx - 12):jx + 3]}))
        log("%s validated: %d records, %d rejections" % (g["name"], recs, len(rej)))
        if viol and not os.environ.get("LIFE_ALL"): break
    return cov, viol
