#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, lib, scen



def check(c):
    progs = lib.variants(c, [("asan", "f32"), ("opt", "f32"), ("asan", "d64"), ("asan", "w64"), ("opt", "f64")])
    lib.run(c, "TraceLib_C05.cfg", scen.partitions(c, c.n(250, 5000)), progs, "partitions")
    lib.run(c, "TraceLib_C05.cfg", scen.weights(c, c.n(40, 1500)), progs, "weights")
    lib.run(c, "TraceLib_C05.cfg", scen.formats(c, c.n(100, 1500), dump=True, mul=True, fmts=scen.BLOCKED, most=9), progs, "random")


vf.main("C05", "model_checking", check)
