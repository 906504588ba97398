"""Properties decided at store granularity: crashes at any store of an operation (specs/kv/KVCrash)
and lookups that overlap a writer moving at any load (specs/kv/KVRead)."""
from cccheck import *
from kvprops import BASIC, T

U7  = (40, 15, 35, 0, 0, 0, 0)
UC7 = (40, 12, 30, 8, 0, 0, 0)
RC7 = (38, 14, 30, 0, 18, 0, 0)
ALL = BASIC
def rot(n, off=0, szs=("s", "mix", "eq", "edge"), **kw):
    return [cfgline("%s-%s" % (ALL[(i + off) % 16], szs[i % len(szs)]), ALL[(i + off) % 16], szs[i % len(szs)], **kw) for i in range(n)]
def some(syms, sz="s", **kw): return [cfgline("%s-%s" % (s, sz), s, sz, **kw) for s in syms]
def G(name, module, num, depth, pool, w, configs, kind):
    if T: num *= 8
    return dict(name=name, module=module, num=num, depth=depth, pool=pool, weights=w, configs=configs, kind=kind)
def crash(name, num, depth, w, configs, pool=8): return G(name, "KVCrash", num, depth, pool, w, configs, "crash points")
def read(name, num, depth, w, configs, pool=8): return G(name, "KVRead", num, depth, pool, w, configs, "lookups")

def groups(pid):
    c = dict(mode="crash", obs="fl")
    r = dict(mode="read", obs="fl")
    if pid == "P06":
        return [read("one update", 30, 20, U7, rot(8, group=1, tries=2500, jumps=4, **r)),
                read("three updates", 30, 21, U7, rot(8, 5, group=3, tries=6000, jumps=4, **r)),
                read("nine updates", 20, 27, U7, rot(6, 9, group=9, tries=15000, jumps=7, **r)),
                read("prefix cache", 12, 20, U7, rot(6, 3, group=2, tries=5000, jumps=4, opt="pR", **r)),
                read("jemalloc", 12, 20, U7, rot(6, 11, group=2, tries=5000, jumps=4, opt="j", **r)),
                read("wide nodes", 6, 16, U7, [cfgline("bal", "c2", "s", bal=b, group=2, tries=5000, jumps=4, **r) for b in (3, 60, 250)])]
    if pid == "P07":
        return [crash("reader of a dead writer", 26, 14, U7, rot(6, maxk=60, ro=1, follow=0, nest=0, **c)),
                read("reader of a stalled writer", 24, 20, U7, rot(8, 4, group=1, tries=2500, jumps=0, **r)),
                read("stalled, prefix cache", 10, 20, U7, rot(4, 2, group=1, tries=2500, jumps=0, opt="pR", **r)),
                read("stalled, jemalloc", 10, 20, U7, rot(4, 7, group=1, tries=2500, jumps=0, opt="j", **r)),
                read("stalled, then going on", 16, 20, U7, rot(6, 1, group=4, tries=5000, jumps=1, **r))]
    if pid == "P08":
        return [crash("updates", 22, 14, U7, rot(8, maxk=30, ro=0, follow=4, nest=12, **c)),
                crash("collection afterwards", 10, 12, U7, rot(6, 6, maxk=24, ro=0, follow=3, nest=12, rcafter=1, **c)),
                crash("old readers", 8, 14, U7, rot(5, 11, maxk=30, ro=1, follow=4, nest=0, **c)),
                crash("wide nodes", 4, 12, U7, [cfgline("bal", "c2", "s", bal=b, maxk=24, ro=0, follow=3, nest=12, **c) for b in (3, 250)])]
    if pid == "P13":
        return [crash("collection", 16, 14, RC7, rot(6, maxk=30, ro=1, follow=4, nest=12, rcafter=1, N="rc", **c)),
                crash("several data blocks", 2, 9, RC7, some(["c6"], "wide", fillD=4200000, maxk=12, ro=1, follow=3, nest=12, rcafter=1, N="rc", **c))]
    if pid == "P12":
        return [read("one collection", 24, 20, RC7, rot(8, group=1, tries=4000, jumps=6, N="rc", **r)),
                read("collection and updates", 16, 21, RC7, rot(6, 5, group=3, tries=8000, jumps=6, N="rc", **r)),
                read("several data blocks", 4, 12, RC7, some(["c6", "uneq"], "wide", fillD=4200000, group=2, tries=8000, jumps=6, N="rc", **r)),
                read("several index blocks", 2, 12, RC7, some(["mid"], "mix", fillI=25000, group=2, tries=8000, jumps=6, N="rc", **r))]
    if pid == "P20":
        return [crash("clear-all", 10, 12, UC7, rot(5, maxk=30, ro=1, follow=4, nest=12, **c)),
                read("lookups during clear-all", 10, 20, UC7, rot(5, 5, group=2, tries=4000, jumps=4, **r)),
                read("lookups during clear-all, jemalloc", 6, 20, UC7, rot(4, 9, group=2, tries=4000, jumps=4, opt="j", **r))]
    raise CheckError("no groups for " + pid)

CC_PIDS = ["P06", "P07", "P08", "P12", "P13", "P20"]

def part(pid):
    dist, gen, _ = model_check("kv", "KVMC", must_cover=("Add", "Delete", "RemoveAll", "Neutral"))
    log("abstract specification: %d states" % dist)
    cov, viol = cc_run(pid, groups(pid))
    cov.update(states=dist, transitions=gen)
    return cov, viol
