#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, lib, omplib, scen



def check(c):
    progs = lib.variants(c, [("asan", "f32"), ("opt", "f32"), ("asan", "d64")], fields=False)
    lib.run(c, "TraceLib_C12.cfg", scen.permutations(c, c.n(300, 5000), [1, 2, 3, 4, 7, 20, 64, 65, 128, 130, 300]), progs, "permutations")
    lib.run(c, "TraceLib_C12.cfg", scen.long_permutations(c), progs, "long-permutations")
    sched = omplib.variants(c, ["f32"] + c.n([], ["d64"]))
    if sched: omplib.run(c, "TraceLib_C12.cfg", omplib.stir(c.rng, scen.permutations(c, c.n(60, 800), [3, 64, 65, 128, 130, 200, 300])), sched, "scheduled")


vf.main("C12", "model_checking", check)
