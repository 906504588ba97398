"""rerun.py REPLAY OUTDIR: write a job file for one saved replay; run it with
   <driver> OUTDIR/jobs OUTDIR/out OUTDIR/scr 1"""
import json, sys, os
d = json.load(open(sys.argv[1])); o = sys.argv[2]; os.makedirs(o + "/scr", exist_ok=True)
with open(o + "/jobs", "w") as f:
    f.write("U 2 4\nC %s\nH %s\n" % (d["configuration"], ";".join("%s,%d,%d,%d" % tuple(x) for x in d["behaviour"])))
print(d["behaviour"][d["rejected_record_index"]])
