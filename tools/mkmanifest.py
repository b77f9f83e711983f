#!/usr/bin/env python3
"""Writes MANIFEST.json: properties with a check in checks/ are claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = "TLA+ specification checked with TLC; behaviours replayed into the code, recorded traces validated against it"
TR = " Trusts the compiler, the recording driver and TLC."
NOTE = {k: v + TR for k, v in {
    "C01": "Every recorded product equals MulAdd of the specification; all small matrices of the bounded model (2x2, 3 entries quick; 3x3 thorough) in every format plus random ones up to 70000 entries.",
    "C02": "The task system is checked exhaustively in bounded models (race, use after release, leak, termination); schedules of the real code are simulated or random, and happens-before finds a race in any schedule that executes both accesses.",
    "C03": "All small matrices of the bounded model and random ones, with the internal arrays decoded after every conversion.",
    "C04": "All boundaries of small matrices of the bounded model and random ones; block arithmetic up to the limits of the index types.",
    "C05": "Partitions recorded for 1..64 workers on small exhaustive and random large block-rows.",
    "C06": "All pairs of logarithms up to 2^34 of the bounded model called in the code, random dimensions to 2^63.",
    "C07": "Parallel sort checked exhaustively for small lengths; the code on random arrays around every cut-off under its own and a scheduling runtime.",
    "C08": "Generated files of every kind, compared with the specification's reading of their bytes; bounded model states are among them.",
    "C09": "Round trips over random bit patterns and sizes; composition of writer and reader checked on all small matrices of the model.",
    "C10": "Every cut and systematic changes of small files of every format, under the library and every tool; refusal of every truncation checked on the model.",
    "C11": "Faults at every byte position of small outputs (sampled for larger ones), under the library and every tool.",
    "C12": "All small permutations of the model and random larger ones, under native and scheduled runtimes.",
    "C13": "Lemmas checked for all small block vectors of the model; random larger ones in the code.",
    "C14": "States of the bounded model and random inputs for every tool, whole directory compared.",
    "C15": "Isolation and termination checked exhaustively for two and three runs; preemption pairs (all thorough, sampled quick) replayed in real runs.",
    "C16": "Call histories simulated from the specification and replayed; everything observable compared after every call.",
    "C17": "Direct calls with exact answers; measuring programs under a controlled clock.",
    "C18": "Everything printed compared with the stored matrix as a sequence of numbers, for random matrices and files.",
}.items()}
DEF = "Holds for every behaviour explored: the bounded model exhaustively, the implementation on replayed and recorded histories. Trusts the compiler, the recording driver and TLC."
LEVEL = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/checks/%s.py" % (V, i)):
        checks.append({"property": i, "quick_cmd": "python3 checks/%s.py" % i, "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s.py --thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": LEVEL.get(i, "model_checking"), "level_note": NOTE.get(i, DEF)})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "Specification language: TLA+ (TLC). See DESIGN.md. No hooks in /repo."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
