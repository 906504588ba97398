"""Properties decided by replaying behaviours of specs/kv: what is generated,
under which concrete configurations, and what is observed."""
from kvcheck import *

T = TIER == "thorough"
BASIC = ["one", "bytes", "c2", "c4", "c5", "c6", "c7", "uneq", "uneq2", "mid", "max", "max2", "max3", "zero", "hi", "utf"]
def cfgs(syms, szs, **kw):
    return [cfgline("%s-%s" % (s, z), s, z, **kw) for s in syms for z in szs]
def rot(syms, szs, n, **kw):
    """n configurations covering every substitution and size scheme in rotation"""
    return [cfgline("%s-%s" % (syms[i % len(syms)], szs[i % len(szs)]), syms[i % len(syms)], szs[i % len(szs)], **kw) for i in range(n)]
def G(name, num, depth, pool, weights, configs, salt=0):
    if T: num *= 8
    return dict(name=name, num=num, depth=depth, pool=pool, weights=weights, configs=configs, salt=salt)

UPD  = (40, 15, 35, 0, 0, 0, 0)
UPDC = (40, 15, 35, 1, 0, 0, 0)
SM = ["s", "mix", "eq", "edge"]

def groups(pid):
    if pid == "P01":
        return [G("updates", 260, 44, 10, UPD, rot(BASIC, SM, 16, obs="fc", handles=2, every=1)),
                G("small memory caps", 24, 40, 8, UPD, [cfgline("cap", s, z, fillD=f, fillI=i, capI=4, capD=4, obs="fc", handles=2, every=4) for s, z, f, i in
                  (("c7", "wide", 9000000, 0), ("mid", "s", 0, 25000), ("max2", "mix", 5000000, 19780))]),
                G("one-byte and large values", 60, 40, 8, UPD, rot(BASIC, ["one", "big", "max", "wide"], 12, obs="fc")),
                G("wide nodes", 40, 40, 12, UPD, [cfgline("bal", "c2", "s", obs="fc", bal=b) for b in (3, 14, 60, 250)] + [cfgline("balL", "c7", "mix", obs="fc", bal=b) for b in (7, 31)]),
                G("many keys", 40, 150, 28, UPD, rot(BASIC, SM, 8, obs="fc", handles=2)),
                G("block ends", 10, 40, 8, UPD, [cfgline("blk", "c6", "wide", obs="fc", fillD=f) for f in (4194304 - 20000, 4194304 - 400, 2 * 4194304 - 33000)]
                  + [cfgline("blkI", "mid", "mix", obs="fc", fillI=19780)])]
    if pid == "P02":
        return [G("updates", 240, 44, 10, UPD, rot(BASIC, SM, 16, obs="ix" "c", handles=2, every=2)),
                G("small memory caps", 24, 40, 8, UPD, [cfgline("cap", s, z, fillD=f, fillI=i, capI=4, capD=4, obs="cix", handles=2, every=4) for s, z, f, i in
                  (("c7", "wide", 9000000, 0), ("mid", "s", 0, 25000), ("max2", "mix", 5000000, 19780))]),
                G("wide nodes", 30, 40, 12, UPD, [cfgline("bal", "c2", "s", obs="cix", every=3, bal=b) for b in (3, 60, 250)]),
                G("many keys, clear", 30, 150, 28, UPDC, rot(BASIC, SM, 6, obs="cix", handles=2, every=4))]
    if pid == "P03":
        return [G("updates", 240, 40, 10, UPD, rot(BASIC, SM, 16, obs="l", handles=2, every=2)),
                G("small memory caps", 24, 40, 8, UPD, [cfgline("cap", s, z, fillD=f, fillI=i, capI=4, capD=4, obs="l", handles=2, every=4) for s, z, f, i in
                  (("c7", "wide", 9000000, 0), ("mid", "s", 0, 25000), ("max2", "mix", 5000000, 19780))]),
                G("wide nodes", 30, 40, 12, UPD, [cfgline("bal", "c2", "s", obs="l", every=3, bal=b) for b in (3, 60, 250)]),
                G("many keys", 30, 120, 28, UPD, rot(BASIC, SM, 8, obs="l", handles=2, every=4))]
    if pid == "P04":
        return [G("updates", 240, 40, 10, UPD, rot(BASIC, SM, 16, obs="b", handles=2, every=2)),
                G("small memory caps", 24, 40, 8, UPD, [cfgline("cap", s, z, fillD=f, fillI=i, capI=4, capD=4, obs="b", handles=2, every=4) for s, z, f, i in
                  (("c7", "wide", 9000000, 0), ("mid", "s", 0, 25000), ("max2", "mix", 5000000, 19780))]),
                G("many keys", 30, 120, 28, UPD, rot(BASIC, SM, 8, obs="b", handles=2, every=4))]
    if pid == "P05":
        w = (36, 14, 30, 1, 10, 4, 2)
        k = dict(obs="fcixlb", every=10, N="reopen", O="fresh", P="flush")
        return [G("reopen", 110, 40, 10, w, rot(BASIC, SM, 10, handles=2, **k)),
                G("small memory caps", 24, 40, 8, w, [cfgline("cap", s, z, fillD=f, fillI=i, capI=4, capD=4, **k) for s, z, f, i in
                  (("c2", "mix", 4194304 - 5000, 0), ("c7", "wide", 9000000, 0), ("mid", "s", 0, 25000), ("max", "mix", 5000000, 25000))]),
                G("block sizes", 24, 40, 8, w, [cfgline("blk", "uneq", "wide", idxblk=a, datblk=b, nblk=n, **k) for a, b, n in ((8, 4, 4), (4, 12, 8), (16, 16, 2))])]
    if pid == "P11":
        w = (36, 14, 34, 0, 12, 2, 0)
        k = dict(obs="fcixlb", every=12, N="rc", O="reopen")
        return [G("collect", 120, 50, 10, w, rot(BASIC, ["s", "mix", "eq", "wide"], 10, handles=2, **k)),
                G("small memory caps", 12, 40, 8, w, [cfgline("cap", s, z, fillD=f, fillI=i, capI=4, capD=4, **k) for s, z, f, i in
                  (("c2", "mix", 4194304 - 5000, 0), ("c7", "wide", 9000000, 0), ("mid", "s", 0, 25000), ("uneq", "mix", 0, 19780))]),
                G("wide nodes", 16, 40, 10, w, [cfgline("bal", "c2", "s", obs="fci", every=10, N="rc", O="reopen", bal=b) for b in (14, 250)]),
                G("several blocks", 10, 40, 8, w, [cfgline("blk", "c6", "wide", fillD=f, **k) for f in (4194304 - 20000, 9000000)] + [cfgline("blkI", "mid", "mix", fillI=25000, **k)])]
    if pid == "P15":
        w = (36, 14, 30, 1, 6, 12, 2)
        k = dict(obs="fcixlb", every=14, N="rc", O="backup", P="reopen")
        return [G("backup", 60, 40, 10, w, rot(BASIC, SM, 8, **k)),
                G("several blocks", 8, 30, 8, w, [cfgline("blk", "c6", "wide", fillD=f, **k) for f in (4194304 - 20000, 9000000)] + [cfgline("blkI", "mid", "mix", fillI=25000, **k)]),
                G("unequal block sizes", 12, 30, 8, w, [cfgline("blkU", "mid", "mix", idxblk=4, datblk=16, nblk=8, fillI=25000, **k),
                  cfgline("blkV", "c6", "wide", idxblk=16, datblk=4, nblk=8, fillD=9000000, **k),
                  cfgline("blkW", "uneq", "wide", idxblk=8, datblk=4, nblk=8, fillD=4194304 - 20000, **k)])]
    if pid == "P16":
        w = (40, 15, 33, 1, 3, 2, 0)
        k = dict(obs="fcixlb", every=10, opt="j", N="fresh", O="flush")
        return [G("updates", 100, 44, 10, w, rot(BASIC, SM, 12, **k)),
                G("prefix cache", 40, 40, 10, w, rot(BASIC, SM, 6, **dict(k, opt="jp"))),
                G("wide nodes and values", 20, 40, 10, w, [cfgline("bal", "c2", "wide", obs="fci", opt="j", bal=b) for b in (14, 250)]),
                G("many keys", 16, 150, 28, w, rot(BASIC, SM, 6, **k))]
    if pid == "P19":
        w = (40, 15, 33, 1, 4, 3, 3)
        k = dict(obs="fcixlb", every=8, opt="pR", handles=2, N="rc", O="reopen", P="churn")
        return [G("updates", 120, 44, 10, w, rot(BASIC, SM, 12, **k)),
                G("reader without cache", 30, 44, 10, w, rot(BASIC, SM, 6, **dict(k, opt="p"))),
                G("many keys", 16, 150, 28, w, rot(BASIC, SM, 6, **k))]
    if pid == "P20":
        w = (36, 12, 24, 10, 3, 4, 2)
        k = dict(obs="fcixlb", every=10, N="rc", O="reopen", P="fresh")
        return [G("clear", 70, 44, 10, w, rot(BASIC, SM, 8, handles=2, **k)),
                G("clear, jemalloc", 40, 44, 10, w, rot(BASIC, SM, 6, **dict(k, opt="j", N="nop", O="nop"))),
                G("clear, prefix cache", 30, 44, 10, w, rot(BASIC, SM, 6, handles=2, **dict(k, opt="pR"))),
                G("clear, several blocks", 8, 30, 8, w, [cfgline("blk", "c6", "wide", fillD=9000000, **k), cfgline("blkI", "mid", "mix", fillI=25000, **k)])]
    if pid == "P22":
        w = (40, 15, 33, 1, 4, 3, 2)
        k = dict(obs="fcixlb", every=10, opt="m", N="rc", O="churn", P="bad", handles=2)
        return [G("updates", 100, 44, 10, w, rot(BASIC, SM, 12, **k)),
                G("wide", 20, 40, 10, w, [cfgline("bal", "c2", "wide", obs="fci", opt="m", handles=2, bal=b) for b in (14, 250)])]
    if pid == "P23":
        w = (30, 10, 24, 0, 30, 2, 0)
        k = dict(obs="fcixlb", every=10, N="bad", O="reopen")
        return [G("bad calls", 120, 44, 10, w, rot(BASIC, SM, 10, handles=2, **k)),
                G("bad calls, jemalloc", 30, 44, 10, w, rot(BASIC, SM, 5, **dict(k, opt="j", O="nop")))]
    raise CheckError("no groups for " + pid)

KV_PIDS = ["P01", "P02", "P03", "P04", "P05", "P11", "P15", "P16", "P19", "P20", "P22", "P23"]

def part(pid):
    dist, gen, _ = model_check("kv", "KVMC", must_cover=("Add", "Delete", "RemoveAll", "Neutral"))
    log("abstract specification: %d states" % dist)
    cov, viol = kv_run(pid, groups(pid))
    cov.update(states=dist, transitions=gen)
    return cov, viol
