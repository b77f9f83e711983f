#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, lib, omplib, scen



def check(c):
    progs = lib.variants(c, [("asan", "f32"), ("opt", "f32"), ("asan", "d64")], fields=False)
    lib.run(c, "TraceLib_C13.cfg", scen.expansions(c, c.n(400, 8000)), progs, "expansions")
    lib.run(c, "TraceLib_C13.cfg", scen.long_expansions(c), progs, "long-expansions")
    lib.run(c, "TraceLib_C13.cfg", scen.giants(c, c.n(40, 800)), progs, "giants")
    sched = omplib.variants(c, ["f32"] + c.n([], ["d64"]))
    if sched: omplib.run(c, "TraceLib_C13.cfg", omplib.stir(c.rng, scen.expansions(c, c.n(60, 800))), sched, "scheduled")


vf.main("C13", "model_checking", check)
