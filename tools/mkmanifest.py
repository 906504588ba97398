#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAY = "TLA+ (TLC): behaviours generated from specs/kv replayed into the library, recorded traces validated against the specification"
NOTE = ("TLC checks the abstract contract exhaustively for a small universe; behaviours sampled from the same specification by TLC's simulator are replayed into the real library "
        "under many concretisations (key bytes and lengths, value sizes, block layout, modes) and every recorded trace is validated by TLC. Assurance is that of the explored behaviours, not a proof.")
C = {}
for p in ("P01", "P02", "P03", "P04", "P05", "P11", "P15", "P16", "P19", "P20", "P22", "P23"): C[p] = (REPLAY, "model_checking", NOTE)
CRASH = "TLA+ (TLC): behaviours of specs/kv replayed with every store to shared memory logged; crash images and lookups interleaved at any load validated against specs/kv/KVCrash and KVRead"
CNOTE = ("Behaviours drawn from the specification run in the real library with every store logged (compiler instrumentation); images of the files after any prefix of the stores are opened by real readers and "
         "writers, and real lookups run while the logged writer moves on at any of their loads. TLC decides whether every recorded answer is one the specification allows. Sampled, sequentially consistent "
         "(total store order) executions; effects of compiler or weaker-memory reordering are not covered.")
for p in ("P06", "P07", "P08", "P12", "P13"): C[p] = (CRASH, "model_checking", CNOTE)
C["P20"] = (REPLAY + "; crashes and overlapping lookups by KVCrash and KVRead", "model_checking", NOTE + " " + CNOTE)
QUEUE = "TLA+ (TLC): specs/queue model checked (slot protocol, refinement of FIFO async updates, collection with deaths); behaviours generated from it scheduled onto the real library, recorded traces validated against AsyncTrace"
QNOTE = ("TLC checks the slot protocol, the async contract and the collection protocol exhaustively within small bounds. Programs and schedules drawn from the specifications drive real submitters, a real writer thread and real deaths, "
         "with every shared access of the library a scheduling point; each recorded trace is validated by TLC. Sampled, sequentially consistent executions.")
C["P10"] = (QUEUE, "model_checking", QNOTE)
C["P12"] = (CRASH + "; " + QUEUE, "model_checking", CNOTE + " " + QNOTE)
LIFE = "TLA+ (TLC): specs/life model checked (ownership, harmless refusals, deaths); programs generated from it run by real processes that open, race, update, copy, damage and die; recorded experiences validated against LifeTrace"
LNOTE = ("TLC checks the lifecycle contract exhaustively within small bounds. Programs drawn from the specification are carried out by real processes (deaths at the n-th store to shared memory or file change); TLC decides whether each "
         "recorded experience is a behaviour of the specification. Sampled executions.")
for p in ("P09", "P17", "P21"): C[p] = (LIFE, "model_checking", LNOTE)
STORE = "TLA+ (TLC): specs/store model checked (ages and eviction passes; storage accounting of the free lists); histories generated from it run in the real library, recorded contents, ages, accounting and storage extents validated against StoreTrace"
SNOTE = ("TLC checks the eviction and the accounting specifications exhaustively within small bounds. Histories drawn from the specification run in the real library under many sizes and layouts; after each step TLC compares contents, "
         "pending garbage, used storage and (often) every storage extent reachable from the root with the specification. Sampled histories.")
for p in ("P14", "P24"): C[p] = (STORE, "model_checking", SNOTE)
NA = "No check is registered for this property yet; see DESIGN.md for the plan."
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in C:
        t, l, n = C[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 bin/check.py %s quick" % i, "thorough_cmd": "python3 bin/check.py %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": t, "level": l, "level_note": n})
    else: m["not_applicable"].append({"property": i, "reason": NA})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
