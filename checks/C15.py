#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, toollib, preplib


def check(c):
    rng = c.rng
    c.mc("Prepare", "Prepare_calm.cfg")
    c.mc("Prepare", c.n("Prepare_quick.cfg", "Prepare_wide.cfg"))
    c.broken("Prepare", "Prepare_shared.cfg")      # the properties notice shared storage
    progs = toollib.build(c, only=["prepare"])
    prog = lambda fl: (progs[fl][0]["prepare"], progs[fl][1])
    beh = preplib.schedules(c, "Prepare_sim.cfg", c.n(60, 1500), 60)
    if len(beh) < 20: raise RuntimeError("TLC simulated only %d behaviours" % len(beh))
    specs = []
    for s in beh:          # one turn of the specification is one to four operations of the program
        fs, runs = preplib.inputs(rng, 0, 3)
        specs.append([fs, runs, [(p, rng.choice([1, 1, 2, 3, 4])) for p, _ in s]])
    preplib.check(c, *prog("asan"), specs, "behaviours")
    # two runs, each stopped once at every pair of operations
    fs, runs = preplib.inputs(rng, 0, 2)
    n = 62
    pairs = [(i, j) for i in range(1, n) for j in range(1, n)]
    if c.quick: pairs = rng.sample(pairs, 60) + [(i, 200) for i in range(1, n)]
    specs = []
    for i, j in pairs:
        specs.append([fs, runs, [(1, i), (2, j), (1, 200), (2, 200)]])
    preplib.check(c, *prog("opt"), specs, "preempted")
    specs = []
    for k in range(c.n(60, 1500)):
        fs, runs = preplib.trouble(rng, *preplib.inputs(rng, 0, rng.choice([1, 2, 2, 3, 4])))
        specs.append([fs, runs, [(rng.randint(1, len(runs)), rng.randint(1, 8)) for _ in range(80)]])
    preplib.check(c, *prog("asan"), specs, "errors")


vf.main("C15", "model_checking", check)
