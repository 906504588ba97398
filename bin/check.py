#!/usr/bin/env python3
"""check.py PID [quick|thorough]: decides one property; exit 0 held, 1 violation, 2 no answer."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
if len(sys.argv) > 2: os.environ["VERIF_TIER"] = sys.argv[2]
import mbv

def parts(pid):
    import kvprops, ccprops, qprops, lifeprops, stcheck
    r = [m.part for m, ps in ((kvprops, kvprops.KV_PIDS), (ccprops, ccprops.CC_PIDS), (qprops, qprops.Q_PIDS), (lifeprops, lifeprops.L_PIDS), (stcheck, stcheck.ST_PIDS)) if pid in ps]
    if not r: raise mbv.CheckError("unknown property " + pid)
    return r

def merge(a, b):
    for k, v in b.items():
        if isinstance(v, (int, float)) and isinstance(a.get(k), (int, float)): a[k] = max(a[k], v) if k in ("states", "transitions") else a[k] + v
        elif isinstance(v, list) and isinstance(a.get(k), list): a[k] = a[k] + v
        elif isinstance(v, dict) and isinstance(a.get(k), dict): a[k].update(v)
        else: a[k] = v
    return a

def main(pid):
    cov, viol = {}, []
    for p in parts(pid):
        c, viol = p(pid)
        cov = merge(cov, c)
        if viol: break
    cov["traces_validated_against_impl"] = cov.get("distinct_traces", 0)
    mbv.finish(pid, "model_checking", cov, viol)

if __name__ == "__main__":
    try: main(sys.argv[1])
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); sys.exit(2)
