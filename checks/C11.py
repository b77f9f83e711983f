#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, iolib, ioscen, toollib, toolscen


def check(c):
    progs = iolib.variants(c, [("asan", "f32"), ("opt", "d64")])
    iolib.run(c, "TraceIO_C11.cfg", [(n, p, ioscen.faults(c.rng, ioscen.W(*p[2]), c.n(12, 200), 1300)) for n, p in progs.items()], "faults")
    tp = toollib.build(c)
    ts = [t for t in toollib.ALL if t != "pprint"]
    for _ in range(c.n(1, 6)):
        toollib.run(c, "TraceTools_C11.cfg", tp, toolscen.faults(c.rng, ts, ["asan", "opt"], c.n(3, 40)), "tools")


vf.main("C11", "model_checking", check)
