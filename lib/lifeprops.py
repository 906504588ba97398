"""Properties decided by the lifecycle specification."""
from lifecheck import *
T = TIER == "thorough"
L_PIDS = ["P09", "P17", "P21"]
#     open update lookup count wait close kill damage copy collect race
W9 = (26, 20, 12, 2, 5, 18, 6, 1, 0, 0, 8)
W21 = (30, 26, 16, 4, 5, 16, 3, 6, 2, 1, 3)
def G(name, num, reps, **k):
    if T: num *= 8
    return dict(dict(name=name, num=num, reps=reps, depth=24, w=W9, cfgs=[0], kills=0), **k)
def groups(pid):
    if pid == "P09":
        return [G("owners", 150, 2), G("owners and deaths", 150, 4, kills=25), G("owners with other configurations", 100, 2, cfgs=[0, 1, 2, 5], kills=8)]
    if pid == "P21":
        return [G("mismatches", 150, 2, w=W21, cfgs=[0, 1, 2, 3, 5, 7, 8, 10]), G("mismatches and deaths", 150, 4, w=W21, cfgs=[0, 1, 2, 3, 7], kills=25),
                G("jemalloc", 100, 2, w=W21, cfgs=[0, 4, 6, 9], one=True)]
W17 = (24, 34, 14, 4, 0, 8, 14, 0, 0, 0, 0)
_groups = groups
def groups(pid):
    if pid != "P17": return _groups(pid)
    F = [10, 100, 1000, 6000, 30000]
    return [G("restarts", 60, 3, w=W17, cfgs=[6], one=True, bulk=[3, 12, 40, 150], depth=48),
            G("restarts after deaths", 80, 6, w=W17, cfgs=[6], one=True, bulk=[3, 12, 40, 150], kills=15, depth=48, far=F),
            G("restarts keeping or not", 60, 6, w=W17, cfgs=[4, 6], one=True, bulk=[0, 12, 40], kills=20, depth=48, far=F)]
def part(pid):
    st, tr, _ = model_check("life", "LifeMC", "LifeMCL" if T else "LifeMC", timeout=1500)
    log("LifeMC: %d states" % st)
    cov, viol = life_run(pid, groups(pid))
    cov["states"] = st; cov["transitions"] = tr
    return cov, viol
