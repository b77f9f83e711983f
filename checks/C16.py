#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, lib, scen



def check(c):
    progs = lib.variants(c, [("asan", "f32"), ("opt", "f32"), ("asan", "d64"), ("opt", "f8"), ("opt", "f64")], fields=False)
    lib.run(c, "TraceLib_C16.cfg", scen.simulated(c, c.n(30, 300), c.n(30, 60), 8), progs, "simulated")
    lib.run(c, "TraceLib_C16.cfg", scen.twins(c, c.n(120, 2500)), progs, "twins")


vf.main("C16", "model_checking", check)
