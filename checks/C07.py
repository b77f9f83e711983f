#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, lib, omplib, scen

SMALL = [0, 1, 2, 3, 5, 8, 20, 60, 200]
LARGE = [499, 500, 501, 999, 1001, 2000, 2600, 4000, 5000]


def check(c):
    for m in c.n(["quick", "live"], ["six", "wide", "live"]): c.mc("MC_ParSort", "MC_ParSort_%s.cfg" % m)
    for m in c.n(["sortwait", "unstable"], ["mergewait", "sortwait", "unstable"]): c.broken("MC_ParSort", "MC_ParSort_%s.cfg" % m)
    progs = lib.variants(c, [("asan", "f32"), ("opt", "f32"), ("asan", "d64")], fields=False)
    lib.run(c, "TraceLib_C07.cfg", scen.sorts(c, c.n(110, 2000), SMALL), progs, "small")
    lib.run(c, "TraceLib_C07.cfg", scen.sorts(c, c.n(8, 100), LARGE), progs, "large")
    lib.run(c, "TraceLib_C07.cfg", scen.long_sorts(c), progs, "long-sorts")
    sched = omplib.variants(c, ["f32"] + c.n([], ["d64"]))
    if sched:
        omplib.run(c, "TraceLib_C07.cfg", omplib.stir(c.rng, scen.sorts(c, c.n(16, 200), SMALL), preempt=True), sched, "scheduled-small")
        hs = scen.sorts(c, c.n(14, 150), LARGE)
        omplib.run(c, "TraceLib_C07.cfg", omplib.stir(c.rng, hs, preempt=[0, 0, 50, 500]), sched, "scheduled")


vf.main("C07", "model_checking", check)
