#!/usr/bin/env python3
"""Literal key tables for the TLA+ specs (specs/kv/KeyTab*.tla)."""
import itertools, os, sys
def table(nsym, maxlen):
    strs = sorted(s for n in range(1, maxlen + 1) for s in itertools.product(range(1, nsym + 1), repeat=n))
    idx = {s: i + 1 for i, s in enumerate(strs)}
    pre = [[idx[s[:n]] for n in range(len(s), 0, -1)] for s in strs]
    ext = [[j + 1 for j, t in enumerate(strs) if t[:len(s)] == s] for s in strs]
    return strs, pre, ext
def tla(seqs): return "<<" + ", ".join("<<" + ", ".join(map(str, s)) + ">>" for s in seqs) + ">>"
def write(path, name, nsym, maxlen):
    strs, pre, ext = table(nsym, maxlen)
    with open(path, "w") as f:
        f.write("---- MODULE %s ----\n\\* generated by tools/mkkeys.py: %d symbols, strings up to length %d\n" % (name, nsym, maxlen))
        for n, v in (("TabStr", strs), ("TabPre", pre), ("TabExt", ext)): f.write("%s == %s\n" % (n, tla(v)))
        f.write("====\n")
if __name__ == "__main__":
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "specs", "kv")
    for nm, a, b in (("KeyTab22", 2, 2), ("KeyTab24", 2, 4), ("KeyTab23", 2, 3), ("KeyTab32", 3, 2)):
        write(os.path.join(d, nm + ".tla"), nm, a, b)
