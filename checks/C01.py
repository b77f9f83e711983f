#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, lib, scen


def check(c):
    progs = lib.variants(c, [("asan", "f32"), ("opt", "f32"), ("asan", "d64"), ("opt", "f8"), ("asan", "w64"), ("opt", "f64")] + c.n([], [("asan", "d8"), ("opt", "d64"), ("asan", "f8"), ("asan", "d32"), ("asan", "f64")]), fields=False)
    hs = scen.replay(c, c.n("MC_Formats_quick.cfg", "MC_Formats_wide.cfg"), c.n(150, 8000), dump=False, mul=True)
    lib.run(c, "TraceLib_C01.cfg", hs, progs, "enumerated")
    lib.run(c, "TraceLib_C01.cfg", scen.formats(c, c.n(160, 3000), dump=False, mul=True), progs, "random")
    lib.run(c, "TraceLib_C01.cfg", scen.huge(c, c.n(8, 80), dump=False, mul=True), progs, "huge")
    lib.run(c, "TraceLib_C01.cfg", scen.large(c, c.n(9, 180), dump=False, mul=True), progs, "large")
    lib.run(c, "TraceLib_C01.cfg", scen.slabs(c, c.n(12, 150), dump=False, mul=True), progs, "slabs")
    lib.run(c, "TraceLib_C01.cfg", scen.strips(c, c.n(12, 150), dump=False, mul=True), progs, "strips")
    lib.run(c, "TraceLib_C01.cfg", scen.multitude(c, c.n(10, 100), dump=False, mul=True), progs, "multitude")
    lib.run(c, "TraceLib_C01.cfg", scen.stairs(c, c.n(8, 80), dump=False, mul=True), progs, "stairs")
    lib.run(c, "TraceLib_C01.cfg", scen.bulks(c, ["csr", "csr2", "cswr", "csbr", "csbru", "csbr2", "cgbr", "cgbr2"] * c.n(1, 4)), progs, "bulks")
    lib.run(c, "TraceLib_C01.cfg", scen.hypersparse(c, c.n(2, 20), dump=False, mul=True), progs, "hypersparse")


vf.main("C01", "model_checking", check)
