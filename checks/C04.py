#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, lib, scen



def check(c):
    progs = lib.variants(c, [("asan", "f32"), ("opt", "f32"), ("asan", "d64"), ("opt", "f8"), ("asan", "w64"), ("opt", "f64")] + c.n([], [("asan", "d8"), ("opt", "d64"), ("asan", "d32"), ("asan", "f64")]))
    hs = scen.replay(c, c.n("MC_Formats_wide.cfg", "MC_Formats_wide.cfg"), c.n(150, 12000), dump=True, mul=False, fmts=scen.BLOCKED)
    lib.run(c, "TraceLib_C04.cfg", hs, progs, "enumerated")
    lib.run(c, "TraceLib_C04.cfg", scen.blockmath(c, c.n(150, 3000)), progs, "blockmath")
    lib.run(c, "TraceLib_C04.cfg", scen.blocknumbers(c, c.n(10, 300)), progs, "blocknumbers")
    lib.run(c, "TraceLib_C04.cfg", scen.large(c, c.n(9, 90), dump=True, mul=False, fmts=scen.BLOCKED), progs, "large")
    lib.run(c, "TraceLib_C04.cfg", scen.hypersparse(c, c.n(2, 12), dump=True, mul=False), progs, "hypersparse")
    lib.run(c, "TraceLib_C04.cfg", scen.multitude(c, c.n(10, 80), dump=True, mul=False), progs, "multitude")
    lib.run(c, "TraceLib_C04.cfg", scen.huge(c, c.n(6, 60), dump=True, mul=False, fmts=scen.BLOCKED), progs, "huge")
    lib.run(c, "TraceLib_C04.cfg", scen.formats(c, c.n(150, 3000), dump=True, mul=False, fmts=scen.BLOCKED, most=9), progs, "random")


vf.main("C04", "model_checking", check)
