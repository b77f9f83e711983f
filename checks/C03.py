#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, lib, scen


def check(c):
    progs = lib.variants(c, [("asan", "f32"), ("opt", "f32"), ("asan", "d64"), ("asan", "f8"), ("asan", "w64"), ("opt", "f64")] + c.n([], [("asan", "d8"), ("opt", "d64"), ("opt", "f8"), ("asan", "d32"), ("asan", "f64")]))
    hs = scen.replay(c, c.n("MC_Formats_quick.cfg", "MC_Formats_wide.cfg"), c.n(150, 8000), dump=True, mul=False)
    lib.run(c, "TraceLib_C03.cfg", hs, progs, "enumerated")
    lib.run(c, "TraceLib_C03.cfg", scen.formats(c, c.n(160, 3000), dump=True, mul=False), progs, "random")
    lib.run(c, "TraceLib_C03.cfg", scen.huge(c, c.n(8, 80), dump=True, mul=False), progs, "huge")
    lib.run(c, "TraceLib_C03.cfg", scen.large(c, c.n(9, 180), dump=True, mul=False), progs, "large")
    lib.run(c, "TraceLib_C03.cfg", scen.slabs(c, c.n(8, 150), dump=True, mul=False), progs, "slabs")
    lib.run(c, "TraceLib_C03.cfg", scen.strips(c, c.n(12, 150), dump=True, mul=False), progs, "strips")
    lib.run(c, "TraceLib_C03.cfg", scen.multitude(c, c.n(5, 60), dump=True, mul=False), progs, "multitude")
    lib.run(c, "TraceLib_C03.cfg", scen.tall(c, c.n(8, 100)), progs, "tall")
    lib.run(c, "TraceLib_C03.cfg", scen.bulks(c, ["csr", "csr2", "cswr", "csbr", "csbru", "csbr2", "cgbr", "cgbr2"] * c.n(1, 4)), progs, "bulks")

vf.main("C03", "model_checking", check)
