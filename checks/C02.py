#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, lib, omplib, scen


def check(c):
    c.mc("MC_SpmvTasks", "MC_SpmvTasks_quick.cfg")
    c.mc("MC_SpmvTasks", "MC_SpmvTasks_live.cfg")
    if not c.quick: c.mc("MC_SpmvTasks", "MC_SpmvTasks_wide.cfg")
    for m in ["nowait", "notemp"]: c.broken("MC_SpmvTasks", "MC_SpmvTasks_%s.cfg" % m)
    progs = omplib.variants(c, ["f32"] + c.n([], ["d64", "f8"]))
    rng = c.rng
    small = ((8, 24, .3), (24, 90, .3), (90, 300, .4))
    if not progs:
        progs = lib.variants(c, [("opt", "f32"), ("asan", "f32")], fields=False)
        lib.run(c, "TraceLib_C01.cfg", scen.formats(c, 100, dump=False, mul=True), progs, "results")
        lib.run(c, "TraceLib_C01.cfg", scen.partitions(c, 60), progs, "results-partitions")
        return
    omplib.run(c, "TraceLib_C01.cfg", omplib.behaviours(c, c.n(12, 120)), progs, "behaviours")
    hs = scen.partitions(c, c.n(40, 600))
    for h in hs: h.lines = [x for x in h.lines if not x.startswith("DUMP")]
    omplib.run(c, "TraceLib_C01.cfg", omplib.stir(rng, hs, times=2), progs, "partitions")
    omplib.run(c, "TraceLib_C01.cfg", omplib.stir(rng, scen.formats(c, c.n(50, 800), dump=False, mul=True, sizes=small)), progs, "formats")


vf.main("C02", "model_checking", check)
