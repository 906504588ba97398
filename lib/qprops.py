"""Properties decided by the queue specifications and the scheduled driver."""
from qcheck import *
T = TIER == "thorough"
Q_PIDS = ["P10", "P12"]
#     add ow rm get addR rmR rc clear writer
W1 = (22, 20, 14, 14, 6, 3, 0, 1, 20)
WRC = (22, 20, 14, 16, 4, 3, 5, 1, 18)
WDIS = (24, 24, 18, 10, 4, 4, 0, 0, 20)
def G(name, num, reps, **k):
    if T: num *= 10
    return dict(dict(name=name, num=num, reps=reps, depth=24, w=W1, q=[1, 2, 3, 4, 8], modes=[2, 3, 0, 1]), **k)

def groups(pid):
    rc = dict(bal=300, rc=1)
    if pid == "P10":
        return [G("submitters", 100, 12, q=[2, 1, 3, 4, 8]),
                G("deaths", 100, 12, q=[2, 1, 3], kill=0.6, wkill=0.3, modes=[2, 3, 1, 2]),
                G("submitter beside the writer", 60, 8, q=[2, 4], loc=0.8, wkill=0.1, kill=0.2),
                G("long programs", 30, 8, depth=80, q=[3, 1, 8], kill=0.3, wkill=0.2, w=WDIS),
                G("collection", 30, 4, depth=30, q=[3, 8, 2], w=WRC, cfg=rc, kill=0.2, loc=0.3)]
    if pid == "P12":
        return [G("updates during collection", 50, 6, depth=36, q=[8, 3, 16], w=WRC, cfg=rc, loc=0.5, salt=3),
                G("collection and deaths", 30, 6, depth=30, q=[8, 3], w=WRC, cfg=rc, kill=0.3, wkill=0.8, modes=[2, 3], salt=5)]

def part(pid):
    runs = [("CollectMC", "CollectMCL" if T else "CollectMC")] if pid == "P12" else [("ShmQueue", "ShmQueueL" if T else "ShmQueue"), ("AsyncKVMC", "AsyncKVMCL" if T else "AsyncKVMC")]
    if T and pid == "P10": runs.append(("ShmQueue", "ShmQueueW"))
    st = tr = 0
    for mod, cfg in runs:
        a, b, _ = model_check("queue", mod, cfg, timeout=1500, must_cover=("Abandon", "Die", "GiveUp", "Skip", "Release") if mod == "ShmQueue" and cfg != "ShmQueueW" else ("Task", "Merge", "Off", "Die", "ReadRc") if mod == "CollectMC" else ())
        log("%s (%s): %d states" % (mod, cfg, a)); st += a; tr += b
    cov, viol = q_run(pid, groups(pid))
    cov["states"] = st; cov["transitions"] = tr
    return cov, viol
